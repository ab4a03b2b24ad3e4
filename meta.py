#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.py."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
from props import PROPS as JOBS
B = 'bnl/base/'; H = 'bnl/http3/'; Q = 'bnl/quic/'
P = []
def p(id, title, statement, over, qtext, why, files, *mech, na=None): P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), na=na))

p('C01', 'A buffer always holds the bytes its history implies, and owns them once', 'After any sequence of constructing, slicing, consuming, moving, concatenating, copying and writing, every buffer has exactly the size and bytes that value semantics give it, whatever mixture of inline and shared heap storage is underneath. Operations on one buffer never change or invalidate another, and every storage block is released exactly once.',
  'histories inputs', 'all short histories over three buffers, sizes around the inline-storage limit, all contents', 'The tests follow five fixed histories; they do not mix sharing, self-assignment and size boundaries, and cannot see a leak or a read of freed memory.', [B + 'src/base/buffer.cpp', B + 'include/bnl/base/buffer.hpp'], ('slice and copy-on-promotion between inline, exclusive and shared storage', B + 'src/base/buffer.cpp slice(), upgrade and destroy helpers'), ('move construction and assignment', B + 'src/base/buffer.cpp'))
p('C02', 'A chain of buffers behaves as the concatenation of its chunks', 'Reading, slicing, consuming, popping and pushing on a chain of buffers give what the same operations give on one contiguous byte string, wherever the chunk boundaries are, including empty chunks and requests for zero bytes. A slice has the requested size and leaves exactly the rest.',
  'histories inputs', 'all chunkings of short strings into up to four chunks, all cut sizes, short histories', 'One test with one chunking exists; boundaries, empty chunks and slices across several chunks are not reached.', [B + 'src/base/buffers.cpp', B + 'include/bnl/base/buffers.hpp'], ('slice across chunks, consume, pop, push', B + 'src/base/buffers.cpp'))
p('C03', 'Looking ahead reads the same bytes and leaves the source untouched', 'A lookahead over a buffer or a chain shows exactly the unread bytes, counts what it consumed, and can be nested or copied, each level independent of the others. The underlying buffer or chain is unchanged until it is consumed explicitly.',
  'histories inputs', 'all chunkings, all consumed amounts at three nested levels', 'No test uses a lookahead directly or nests one across a chunk boundary.', [B + 'src/base/buffers.cpp', B + 'src/base/buffer_view.cpp', B + 'include/bnl/base/buffer.hpp'], ('lookahead position and index arithmetic', B + 'src/base/buffers.cpp lookahead'))
p('C04', 'Views, headers, addresses and paths compare and copy by value', 'Byte views, text views, headers and network addresses are equal exactly when their contents are; a header counts as lower case exactly when its name has no upper-case letter. Addresses keep family and bytes through every constructor and copy, and a path keeps local and peer endpoints apart.',
  'inputs', 'all contents of short strings; all addresses and ports', 'No test compares unequal values of equal prefix, or constructs addresses at all.', [B + 'src/base/buffer_view.cpp', B + 'src/base/string_view.cpp', B + 'src/http3/header.cpp', B + 'src/ip/address.cpp', B + 'src/quic/path.cpp'], ('equality operators', B + 'src/base/*_view.cpp, src/ip/address.cpp'), ('lower-case test', B + 'src/http3/header.cpp'))
p('C05', 'Events keep and release their payload', 'An event carries the stream, end mark and payload it was made with through any number of moves, for every kind of event of both layers. When it goes away everything it owned is released once.',
  'inputs histories', 'all payload contents for an inline and a heap size, all ids, up to two moves', 'Tests move events implicitly with one payload each and observe no ownership.', [B + 'src/http3/event.cpp', B + 'src/quic/event.cpp'], ('hand-written moves and destructors of tagged unions', B + 'src/http3/event.cpp, src/quic/event.cpp'))
p('C06', 'Variable-length integers are encoded minimally and exactly', 'Encoding an integer below 2^62 yields the unique shortest encoding of RFC 9000 section 16, of the announced size, and decodes to the same value. Larger integers are refused with "varint overflow" and nothing is written.',
  'inputs', 'all 2^64 values', 'Tests try one value per length.', [H + 'src/codec/varint/encode.cpp', H + 'include/bnl/http3/codec/varint.hpp'], ('size classes and byte order', H + 'src/codec/varint/encode.cpp'))
p('C07', 'Variable-length integers are decoded from any input representation', 'Decoding yields the value the RFC assigns to the leading bytes and consumes exactly its encoding, from a buffer, a chain cut anywhere, or a lookahead. If the encoding is cut short the result is "incomplete" and nothing is consumed.',
  'inputs', 'all byte strings up to nine bytes, all cuts', 'Tests decode a handful of contiguous strings.', [H + 'src/codec/varint/decode.cpp'], ('length prefix dispatch, incomplete test', H + 'src/codec/varint/decode.cpp'))
p('C08', 'Frames are encoded as specified and survive a round trip', 'For every frame whose fields can be represented, the encoder writes the specified bytes, reports their exact count beforehand, and decoding them yields an equal frame with nothing left over. A frame with a field that cannot be represented is refused with "varint overflow"; frames compare equal exactly when type and fields agree.',
  'inputs', 'all frames of all nine types with all 64-bit field values', 'Tests encode one frame of each type; field sizes change the length field and are not varied.', [H + 'src/codec/frame/encode.cpp', H + 'src/codec/frame/decode.cpp', H + 'src/codec/frame/frame.cpp'], ('payload size computation and field order', H + 'src/codec/frame/encode.cpp'))
p('C09', 'Arbitrary bytes decode to the frame they denote or the right error', 'Decoding arbitrary bytes as a frame yields the frame the specification assigns to them and consumes exactly its bytes, or reports that the frame is incomplete and consumes nothing of it, or that its length disagrees with its fields. The outcome does not depend on how the bytes are chunked, and no byte outside the input is read.',
  'inputs', 'all short byte strings, all cuts, four input representations', 'Tests have one malformed and one incomplete input.', [H + 'src/codec/frame/decode.cpp'], ('length accounting against the announced size', H + 'src/codec/frame/decode.cpp'))
p('C10', 'Frames of unknown type are skipped whole, and peeking agrees with decoding', 'Frames of unknown type before a known frame are skipped together with their payload, however they are cut; a truncated one is incomplete. Peeking at the next frame type gives the type that decoding returns next, with the same skipped bytes, and consumes nothing else.',
  'inputs', 'unknown frames of any 62-bit type and short payloads before any known frame, cut anywhere', 'No test contains an unknown frame.', [H + 'src/codec/frame/decode.cpp'], ('skip loop in peek and decode', H + 'src/codec/frame/decode.cpp'))
p('C11', 'Settings decode with defaults, any order and unknown identifiers', 'A SETTINGS frame yields exactly the values it lists, the defaults for those it does not list, and ignores unknown identifiers. A frame whose length does not match its entries is malformed.',
  'inputs', 'all byte strings of SETTINGS payloads within the bound', 'The test decodes one full list in one order.', [H + 'src/codec/frame/decode.cpp', B + 'src/http3/settings.cpp'], ('identifier dispatch and remaining-length loop', H + 'src/codec/frame/decode.cpp settings'))
p('C12', 'Prefixed integers are encoded exactly for every prefix size', 'Encoding an integer with an N-bit prefix writes the RFC 7541 section 5.1 bytes, of the announced size, keeps the flag bits in front of the prefix, and decodes to the same value where decoding supports it.',
  'inputs', 'all 2^64 values, all eight prefix sizes', 'No direct test; indirect use covers small values of three prefixes.', [H + 'src/codec/qpack/prefix_int/encode.cpp'], ('continuation loop and size function', H + 'src/codec/qpack/prefix_int/encode.cpp'))
p('C13', 'Prefixed integers are decoded without overflow or partial consumption', 'Decoding yields the value of the encoding and consumes exactly it; an encoding cut short is incomplete and consumes nothing; an encoding too large for 62 bits is refused. This holds for every prefix size and input representation.',
  'inputs', 'all byte strings up to eleven bytes, all prefix sizes, all cuts', 'No test reaches a second continuation byte.', [H + 'src/codec/qpack/prefix_int/decode.cpp'], ('continuation loop with shift limit', H + 'src/codec/qpack/prefix_int/decode.cpp'))
p('C14', 'Huffman encoding writes the code of RFC 7541 exactly', 'Encoding any string writes the concatenated codes of its bytes, padded with one bits to a whole number of bytes, of exactly the announced size and nothing beyond, and decoding returns the string.',
  'inputs', 'all strings up to the bound', 'The test round-trips random strings through the code under test only; it accepts any self-consistent code and sees only sampled bit alignments.', [H + 'src/codec/qpack/huffman/encode.cpp', H + 'src/codec/qpack/huffman/encode_generated.cpp'], ('bit packing across byte boundaries', H + 'src/codec/qpack/huffman/encode.cpp'), ('code table', H + 'src/codec/qpack/huffman/encode_generated.cpp'))
p('C15', 'Huffman decoding accepts exactly the valid encodings', 'Decoding yields the string a byte string encodes under RFC 7541 appendix B, and fails for every byte string that encodes none: bad padding, padding longer than seven bits, or the end-of-string symbol.',
  'inputs', 'all byte strings up to the bound, plus the deep codes behind leading one bits', 'Tests decode encoder output and one truncated input; the generated table has thousands of transitions.', [H + 'src/codec/qpack/huffman/decode.cpp', H + 'src/codec/qpack/huffman/decode_generated.cpp'], ('nibble state machine', H + 'src/codec/qpack/huffman/decode_generated.cpp'))
p('C16', 'String literals are encoded and decoded exactly', 'A string literal is written with its length prefix, in Huffman form when that is shorter, of the announced size, and decodes to the same string; arbitrary bytes decode to the literal they denote, or are incomplete or refused with nothing consumed.',
  'inputs', 'all short strings and byte strings, long repeated strings around the length-prefix boundaries', 'Tests cover a few literals inside header fields.', [H + 'src/codec/qpack/literal/encode.cpp', H + 'src/codec/qpack/literal/decode.cpp'], ('choice of representation and size', H + 'src/codec/qpack/literal/encode.cpp'))
p('C17', 'Encoded header fields denote the header, and bad names are refused', 'Encoding a header writes the announced number of bytes, and a decoder following the specification reads back exactly that name and value, with the block prefix in front of the first header only. A header whose name has an upper-case letter is refused and nothing is written.',
  'inputs histories', 'all short names and values, first or second in their block', 'Tests encode four headers.', [H + 'src/codec/qpack/encode.cpp'], ('choice of field line form', H + 'src/codec/qpack/encode.cpp'))
p('C18', 'Arbitrary header blocks decode to the headers they denote or an error', 'Decoding a header block yields exactly the headers the specification assigns to its bytes, consuming each field line whole; a field line that refers to a dynamic table, an index outside the static table or an upper-case name is refused; a line cut short is incomplete.',
  'inputs', 'all byte strings up to the bound, in a buffer and in a chain cut anywhere', 'Tests decode three hand-made failures.', [H + 'src/codec/qpack/decode.cpp'], ('field line dispatch on the leading bits', H + 'src/codec/qpack/decode.cpp'))
p('C19', 'The static table is the specified one, in both directions', 'Every index of the static table decodes to its specified name and value and every other index is refused; the encoder emits an index only for exactly the specified name or name and value, even for strings that collide with a table string under its hash.',
  'inputs', 'all 99 entries, every one-byte variation of them, colliding strings, every index', 'Tests use three entries.', [H + 'src/codec/qpack/encode_generated.cpp', H + 'src/codec/qpack/decode_generated.cpp'], ('hash dispatch and comparison', H + 'src/codec/qpack/encode_generated.cpp'), ('index table', H + 'src/codec/qpack/decode_generated.cpp'))
p('C20', 'A header block decodes the same wherever its bytes are cut', 'Feeding a header block in pieces yields the same headers as feeding it at once: a cut in the middle of a line reports "incomplete" without losing or duplicating anything, and decoding continues when more bytes are there.',
  'inputs schedules', 'blocks of all line shapes cut at every place', 'Tests feed whole blocks.', [H + 'src/codec/qpack/decode.cpp', H + 'src/codec/qpack/literal/decode.cpp', H + 'src/codec/qpack/prefix_int/decode.cpp'], ('lookahead then consume', H + 'src/codec/qpack/decode.cpp'))
p('C21', 'The header section of a message survives encoding, framing and chunking', 'Headers added to a message come out of one HEADERS frame whose length is exact, and a receiver reports them in order and unchanged with only the last one marked, for every chunking. Refused headers leave no trace, and a section without headers cannot be started. A frame of another type is left to others, untouched.',
  'inputs histories schedules', 'up to two headers of four shapes, refused headers in between, every cut', 'Tests encode and decode one fixed header section in one piece.', [H + 'src/codec/headers.cpp'], ('frame state, then block state', H + 'src/codec/headers.cpp'))
p('C22', 'The body of a message survives framing and chunking', 'Body parts come out as DATA frames whose lengths are exact; a receiver reports the concatenation in order, marks the end only after all of it, and reports each byte once, for every chunking and every order of adding, closing and draining. A frame of another type is left to others, untouched.',
  'histories inputs schedules', 'every short history of add, encode and close, every cut', 'Tests send one part.', [H + 'src/codec/body.cpp'], ('queue of parts, frame and payload states', H + 'src/codec/body.cpp'))
p('C23', 'A message sender follows its protocol for every order of calls', 'For every sequence of adding headers, starting, adding body, closing and sending, each call succeeds or fails as its state demands, and what is sent is exactly the header section followed by the body parts, each byte once. The end of the stream is sent exactly once, with or after the last byte, and only after the message was closed.',
  'histories', 'every history up to the bound, then completed and drained', 'Tests use one order of calls.', [H + 'src/endpoint/stream/request.cpp'], ('sender state machine', H + 'src/endpoint/stream/request.cpp sender::send'))
p('C24', 'A valid message is reported the same for every chunking', 'A request or response of header section, body and unknown frames, delivered in any pieces, with the end of the stream in the last piece or by itself, is reported as exactly its headers, its body and its end. Nothing is lost, repeated, reordered or reported after the end.',
  'schedules inputs', 'messages of several shapes with symbolic contents, cut at every place and pair of places', 'Tests deliver whole frames in one order.', [H + 'src/endpoint/stream/request.cpp', H + 'src/codec/headers.cpp', H + 'src/codec/body.cpp'], ('receiver state machine and FIN handling', H + 'src/endpoint/stream/request.cpp receiver::process'))
p('C25', 'Arbitrary bytes on a request stream give the specified result', 'Whatever bytes arrive on a request stream, in whatever pieces, the receiver reports the headers and body they contain up to the first violation, then the error that names it; it waits when more is needed, and it reports a message that the end of the stream cuts short as malformed. It never crashes, loops or reads outside its input.',
  'inputs schedules', 'arbitrary short byte strings at four positions of a message, every cut, with and without end of stream', 'Tests contain no malformed message.', [H + 'src/endpoint/stream/request.cpp', H + 'src/client/stream/request.cpp', H + 'src/server/stream/request.cpp'], ('frame dispatch per role', H + 'src/*/stream/request.cpp process'))
p('C26', 'A handle acts on its live stream or reports that it is invalid', 'However handles and streams are moved, replaced and destroyed, a handle acts on exactly the stream it was taken from while that stream lives, and reports an invalid handle afterwards. A stream has at most one handle, and no operation touches a destroyed object.',
  'histories', 'every short history over two streams and three handles', 'Tests never move a stream under a handle or replace a handle.', [H + 'src/endpoint/stream/request.cpp'], ('mutual back pointers kept by moves and destructors', H + 'src/endpoint/stream/request.cpp handle, sender'))
p('C27', 'A control stream opens with its type and settings, once', 'The first bytes on the local control stream are the control stream type and one SETTINGS frame with the local settings; afterwards the stream has nothing to send and is never closed. Client and server use their own stream number.',
  'histories', 'the complete behaviour of both control senders', 'Tests pass these bytes from one side of the code to the other only.', [H + 'src/endpoint/stream/control.cpp', H + 'src/client/stream/control.cpp', H + 'src/server/stream/control.cpp'], ('sender state', H + 'src/endpoint/stream/control.cpp sender::send'))
p('C28', 'Arbitrary bytes on the control stream give the specified result', 'The first frame must be SETTINGS and is reported once with its values; any other first frame, a second SETTINGS, a frame that belongs elsewhere, a malformed frame and the closing of the stream each give their specified error, for every chunking. Partial input waits.',
  'inputs schedules', 'arbitrary short byte strings at three positions, every cut, both roles', 'Tests deliver one valid SETTINGS frame.', [H + 'src/endpoint/stream/control.cpp', H + 'src/client/stream/control.cpp', H + 'src/server/stream/control.cpp'], ('receiver state and frame dispatch', H + 'src/endpoint/stream/control.cpp receiver::process'))
p('C29', 'Requests and responses travel unchanged between client and server', 'Whatever the client sends reaches the server application as the same headers, body and end, and whatever the server answers reaches the client, for every order in which calls, sends and deliveries interleave. Both learn each other\'s settings once, and afterwards nothing is left to send, handles are invalid and nothing leaks.',
  'schedules histories inputs', 'one and two exchanges, all stream delivery orders, several chunkings, all splits of API calls around sends', 'The one connection test follows one order with whole pieces.', [H + 'src/client/connection.cpp', H + 'src/server/connection.cpp', H + 'src/endpoint/stream/request.cpp'], ('stream maps and lifetimes', H + 'src/client/connection.cpp, src/server/connection.cpp'))
p('C30', 'No sequence of events or calls breaks a connection', 'Any sequence of transport events on any stream number, mixed with sends and calls on handles, ends with events, "idle", or an error, never with a crash, an endless loop, a use of freed memory or a leak. A result generator stays usable when its stream is answered and removed in the meantime.',
  'histories inputs fault_sequences', 'short histories over nine stream numbers with protocol fragments and arbitrary bytes', 'Tests only feed output of the other side.', [H + 'src/client/connection.cpp', H + 'src/server/connection.cpp', H + 'include/bnl/http3/endpoint/generator.hpp'], ('lookup, creation and removal of streams; generators', H + 'src/*/connection.cpp recv, send'))
p('C31', 'Streams do not disturb each other', 'Whatever arrives on one request stream or unidirectional stream, messages on the others are reported as if it had not arrived. Control data goes first, then lower streams first; a stream with nothing to send never keeps another from sending.',
  'schedules inputs histories', 'arbitrary bytes on one stream around the pieces of a message on another; three requests in every state', 'Tests have one request at a time.', [H + 'src/client/connection.cpp', H + 'src/server/connection.cpp'], ('per-stream dispatch and send scan', H + 'src/*/connection.cpp send, recv'))
try:
    exec(open(os.path.join(ROOT, 'meta_quic.py')).read())
except FileNotFoundError: pass
exec(open(os.path.join(ROOT, 'meta_tools.py')).read())
p('C91', 'The TLS library protects what it says it protects', 'Protected packets decrypt to their plaintext only with the right key, certificates are checked, and negotiated parameters are authentic.', 'inputs histories', 'all handshakes and packets', 'There are no tests of these parts.', [Q + 'src/client/handshake/boringssl.cpp', Q + 'src/crypto/boringssl.cpp'], ('calls into the TLS library', Q + 'src/crypto/boringssl.cpp'),
  na='the deciding behaviour is inside BoringSSL (with its draft QUIC interface) and ngtcp2, which are not present and not part of the repository; what the repository does with them is decided by C32 to C37, and cryptographic guarantees are out of reach of an SMT solver')

seen = set()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P: f.write(json.dumps({k: v for k, v in q.items() if k != 'na'}) + '\n'); assert q['id'] not in seen and len(q['title']) <= 80, q['id']; seen.add(q['id'])
checks = [dict(property=q['id'], quick_cmd='python3 check.py --property %s --tier quick' % q['id'], thorough_cmd='python3 check.py --property %s --tier thorough' % q['id'], technique='symbolic execution of the LLVM IR compiled from /repo, all path conditions and assertions decided by Z3; counterexamples replayed on a sanitizer build of the same sources', level='model_checking',
  level_note='Bounded: ' + JOBS[q['id']]['bounds'] + '. Outside: ' + (JOBS[q['id']]['outside'] or 'see DESIGN.md') + '.') for q in P if not q['na']]
assert [c['property'] for c in checks] == list(JOBS), set(JOBS) ^ {c['property'] for c in checks}
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[dict(property=q['id'], reason=q['na']) for q in P if q['na']], notes='engine/: symbolic executor; rt/: runtime stand-ins; harness/: specifications and reference decoders; props.py: bounds; meta.py writes this file. No hooks in /repo.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# ---- DESIGN.md
import glob
ORACLE = {}
exec(open(os.path.join(ROOT, 'oracle.py')).read())
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
out = []
for q in P:
    if q['na']: continue
    j = JOBS[q['id']]; es = sorted({x['entry'] for x in j['jobs']}); hs = sorted({x['h'] for x in j['jobs']})
    o, cost = ORACLE[q['id']]
    out.append('### %s %s\n\n*Entries* `%s` in `harness/%s`. *Quick* about %s s.\n\n*Specified:* %s\n\n*Bounds:* %s. *Outside:* %s.\n\n*Why tests cannot:* %s\n' % (q['id'], q['title'], '`, `'.join(es), '`, `harness/'.join(hs), cost, o, j['bounds'], j['outside'] or 'nothing stated', q['why_tests_cant']))
bugs = ['| bug | property | needs | caught by |', '|---|---|---|---|']
CAUGHT = json.load(open(os.path.join(ROOT, 'caught.json'))) if os.path.exists(os.path.join(ROOT, 'caught.json')) else {}
for d in sorted(CAUGHT): bugs.append('| %s | %s | %s | %s |' % (d, CAUGHT[d]['property'], CAUGHT[d]['needs'], CAUGHT[d]['caught']))
t = open(os.path.join(ROOT, 'design.md.in')).read()
t = t.replace('@FIXED@', '\n\n' + '\n'.join('* ' + x.replace('fixed: property=', '') for x in kf['fixed'])).replace('@NA@', '\n'.join('* **%s %s**: %s.' % (q['id'], q['title'], q['na']) for q in P if q['na'])).replace('@PROPS@', '\n'.join(out)).replace('@BUGS@', '\n'.join(bugs)).replace('@MISSED@', CAUGHT_NOTES if 'CAUGHT_NOTES' in globals() else '')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
