"""The jobs that decide each property: harness entry, parameter values (quick: p, thorough: p updated with tp), witnesses."""
PROPS = {}
def prop(id, bounds, jobs, outside=''): PROPS[id] = dict(bounds=bounds, jobs=jobs, outside=outside)
def job(h, entry, reach=(), p=None, tp=None, **kw): return dict(h=h, entry=entry, reach=list(reach), p=p or {}, tp=tp or {}, **kw)
R = lambda *a: list(range(*a))

# ---- bnl-base
prop('C01', 'two buffers of 40 or 256 (heap) and 20 (inline) or 255 symbolic bytes and an empty one; every history of 2 operations out of slice, self-assigned slice, consume, move assignment, move construction, concat, write, copy; of 3 with 40 and 20 bytes; cut sizes 0, 1, 20, 21, n-21, n-20, n-1, n; up to 300 (one job: 70000) slices of one block alive together, released in four orders',
  [job('base.cpp', 'buffer_ops', ['end', 'shared slice', 'copied slice', 'move', 'concat', 'write', 'deep copy', 'temporary slice'], {'na': [40, 256], 'nb': 20, 'depth': 2, 'op0': R(8)}, {'na': [40, 21, 64, 256], 'nb': [20, 30]}),
   job('base.cpp', 'buffer_ops', ['end'], {'na': 300, 'nb': 255, 'depth': 2, 'op0': R(8)}), job('base.cpp', 'buffer_ops', ['end'], {'na': 40, 'nb': 20, 'depth': 3, 'op0': [0, 1, 2, 4], 'edge': 1}, {'op0': R(8)}, weight=5),
   job('base.cpp', 'buffer_many', ['end'], {'count': [2, 3, 17, 300], 'size': [0, 1, 20, 21]}), job('base.cpp', 'buffer_many', ['end'], {'count': 5, 'size': [64, 100]}), job('base.cpp', 'buffer_many', ['end'], {'count': 70000, 'size': 21}, instr=900000000)], 'longer histories and buffers beyond 600 bytes; threads')
prop('C02', 'chains of up to 4 chunks of 0 to 3 symbolic bytes, up to 3 of 0 to 3 and 21, up to 3 of 0, 2, 21 and 64; every history of 1 operation, of 2 with 3 chunks, of 3 with 2 chunks out of slice, consume, pop, push, move with every size (at chunk boundaries for the large chunks); 300 chunks of 0 to 30 and 1200 of 0 or 1 bytes, one of them symbolic, each operation over the whole chain',
  [job('base.cpp', 'chain_ops', ['end', 'slice', 'consume', 'pop', 'push', 'move'], {'chunks': 4, 'depth': 1}), job('base.cpp', 'chain_ops', ['end'], {'chunks': 3, 'depth': 2}), job('base.cpp', 'chain_ops', ['end'], {'chunks': 2, 'depth': 3}, {'chunks': [2, 3]}, weight=2), job('base.cpp', 'chain_ops', ['end'], {'chunks': 3, 'depth': 1, 'big': 1}), job('base.cpp', 'chain_ops', ['end'], {'chunks': 3, 'depth': 2, 'big': 2}, weight=5), job('base.cpp', 'chain_many', ['end'], {'count': 300, 'max': [1, 3, 30]}, instr=900000000), job('base.cpp', 'chain_many', ['end'], {'count': 1200, 'max': 1}, instr=900000000)], 'longer chains and histories')
prop('C03', 'buffers of 5 and 8 symbolic bytes, chains of up to 3 chunks of 0 to 3 bytes (also 2 chunks of up to 21 bytes), three nested lookaheads, every consumed amount; two nested lookaheads over a buffer of 20 to 70000 bytes and over 300 chunks of 0 to 30 bytes, one of them symbolic',
  [job('base.cpp', 'lookahead_buffer', ['nested'], {'n': [5, 8]}, {'n': [5, 8, 12]}), job('base.cpp', 'lookahead_chain', ['nested'], {'chunks': [2, 3]}), job('base.cpp', 'lookahead_chain', ['nested'], {'chunks': 2, 'big': 1}, weight=5), job('base.cpp', 'chain_many', ['end'], {'count': [17, 300], 'max': [3, 30]}, instr=900000000), job('base.cpp', 'lookahead_buffer_long', ['end'], {'n': [20, 21, 64, 300, 70000]}, instr=900000000)], 'other longer sequences')
prop('C04', 'strings and byte views of up to 3 (thorough: 4) symbolic bytes each; strings, views, names and values of 4 to 70000 bytes alike but for any one byte at 18 places (first, last, middle, about powers of two) or one byte shorter; all IPv4 and IPv6 addresses and ports',
  [job('base.cpp', 'view_equality', ['end'], {'n': 3}, {'n': 4}), job('base.cpp', 'view_equality_long', ['end'], {'n': [4, 20, 21, 64, 65, 300, 65535, 65536, 70000]}, instr=900000000), job('base.cpp', 'addresses', ['ipv4', 'ipv6'])], 'other longer strings')
prop('C05', 'payloads of 21 (heap) and 3 (inline) symbolic bytes, of 300 and 70000 with two of them symbolic, symbolic ids and settings, up to 2 moves',
  [job('base.cpp', 'http3_events', ['settings', 'header', 'body', 'finished'], {'n': [3, 21]}), job('base.cpp', 'http3_events', ['settings', 'header', 'body', 'finished'], {'n': [64, 300, 70000]}, instr=900000000)], 'other payloads beyond 64 bytes')
# ---- integers and frames
prop('C06', 'all 2^64 values', [job('codec.cpp', 'varint_encode', ['overflow', 'roundtrip'])], 'nothing: the input space is covered')
prop('C07', 'all byte strings of 0 to 9 bytes (every encoding is at most 8 bytes long), in a buffer, a chain with every cut and lookaheads over both; thorough: two cuts', [job('codec.cpp', 'varint_decode', ['value', 'incomplete', 'buffer', 'chain', 'lookahead', 'chain lookahead'], {'n': R(10)}, {'cuts': 2})], 'chains of more than three chunks')
prop('C08', 'all frames of all nine types with 64-bit symbolic fields; pairs of frames for equality', [job('codec.cpp', 'frame_encode', ['roundtrip', 'rejected'], {'type': [0, 1, 2, 3, 5, 6, 7, 8]}), job('codec.cpp', 'frame_encode', ['roundtrip', 'rejected'], {'type': 4, 'kinds': 0}, {'kinds': 3}, weight=5), job('codec.cpp', 'frame_equality', ['equal', 'different'])], 'decoding of encoded SETTINGS from chains in the quick tier')
prop('C09', 'all byte strings of up to 6 (thorough: 7) bytes starting with DATA, HEADERS, PRIORITY, CANCEL_PUSH, PUSH_PROMISE, GOAWAY, MAX_PUSH_ID, DUPLICATE_PUSH or an unknown type, in a buffer, a chain with every cut and lookaheads over both; every frame type with type, length and every field in each of the four integer widths, announced length right or off by one (PUSH_PROMISE also with 70 bytes of headers), cut anywhere or followed by more bytes',
  [job('codec.cpp', 'frame_decode', ['frame', 'incomplete', 'malformed', 'unknown frame skipped'], {'n': R(7), 'first': [0, 1, 2, 3, 5, 7, 0xd, 0xe, 256]}, {'n': R(8)}), job('codec.cpp', 'frame_forms', ['frame', 'malformed'], {'type': [0, 1, 3, 5, 7, 0xd, 0xe], 'kinds': 1}, {'kinds': 3}), job('codec.cpp', 'frame_forms', ['frame', 'malformed'], {'type': 2, 'kinds': 1, 'outer': 1}, {'outer': 3}, weight=4), job('codec.cpp', 'frame_forms', ['frame', 'malformed', 'incomplete'], {'type': [0, 2, 3, 5, 0xe], 'kinds': 1, 'cut': 1}, {'kinds': 3})], 'longer inputs, except as produced by the encoder (C08)')
prop('C10', 'one or two unknown frames of any unknown 62-bit type with 0 to 2 symbolic payload bytes before a frame of any known type, whole or truncated anywhere, in a buffer or a chain with every cut; one with 0, 1, 63, 64 or 70 bytes and type and length in every integer width (cuts in the first and last 10 bytes and the middle); one with 300 to 70000 bytes, type in every integer width, in a buffer or a chain of five pieces, whole or with up to half of it missing',
  [job('codec.cpp', 'frame_skip', ['found', 'truncated'], {'frames': 1, 'kinds': 1, 'known': R(9)}), job('codec.cpp', 'frame_skip', ['found', 'truncated'], {'frames': 1, 'wide': 1, 'sparse': 1, 'known': 2}, {'kinds': 3}, weight=5), job('codec.cpp', 'frame_skip', ['found', 'truncated'], {'frames': 2, 'kinds': 0, 'known': 0}, {'kinds': 1, 'known': R(9)}, weight=6), job('codec.cpp', 'frame_skip_long', ['found', 'truncated'], {'len': [300, 16383, 16384, 65535, 65536, 70000], 'known': [0, 6]}, instr=900000000)], 'other unknown payloads beyond 70 bytes')
prop('C11', 'all byte strings of up to 8 (thorough: 9) bytes starting with the SETTINGS type; SETTINGS of up to 3 pairs of any known or unknown identifiers in any order (also repeated) with identifiers and values in every integer width, announced length right or off by one, cut anywhere or followed by more bytes; SETTINGS of 12 to 700 pairs with the four known settings (any 62-bit values, four orders and places) among unknown ones, announced right or off by one, whole or cut at four places, in a buffer or a chain of seven pieces',
  [job('codec.cpp', 'frame_decode', ['frame', 'incomplete', 'malformed', 'unknown setting'], {'n': R(9), 'first': 4}, {'n': R(10)}), job('codec.cpp', 'frame_forms', ['frame', 'malformed', 'unknown setting'], {'type': 4, 'kinds': 1, 'outer': 0}, weight=3), job('codec.cpp', 'frame_forms', ['frame', 'malformed'], {'type': 4, 'kinds': 1, 'pairs': 0}, {'kinds': 3}), job('codec.cpp', 'frame_forms', ['frame', 'malformed'], {'type': 4, 'kinds': 0, 'pairs': 3, 'idw': 0, 'widths': 0, 'outer': 0}, {'kinds': 1}, weight=4), job('codec.cpp', 'frame_forms', ['frame', 'incomplete'], {'type': 4, 'kinds': 1, 'pairs': [1, 2], 'idw': 0, 'widths': 0, 'cut': 1}), job('codec.cpp', 'frame_forms', ['frame', 'malformed'], {'type': 4, 'kinds': 0, 'pairs': 2, 'idw': 1, 'outer': 0, 'id': R(5)}, weight=3),
   job('codec.cpp', 'frame_forms', ['frame', 'malformed', 'unknown setting'], {'type': 4, 'kinds': 3, 'outer': 3}, thorough_only=True), job('codec.cpp', 'settings_many', ['frame', 'malformed', 'incomplete'], {'pairs': [12, 20, 64, 300, 700]}, instr=900000000)], 'other longer SETTINGS')
prop('C12', 'all 2^64 values and all prefix sizes 1..8', [job('codec.cpp', 'prefix_encode', ['roundtrip', 'long', 'one byte'], {'prefix': R(1, 9)})], 'nothing: the input space is covered')
prop('C13', 'all byte strings of up to 11 bytes (longer than any 62-bit integer) for all prefix sizes, in a buffer, a chain with every cut and lookaheads over both', [job('codec.cpp', 'prefix_decode', ['value', 'incomplete', 'rejected'], {'prefix': R(1, 9), 'n': R(12)})], 'chains of more than two chunks')
# ---- QPACK
prop('C14', 'all strings of up to 2 (thorough: 3) bytes; strings of 3 bytes that start with a symbol of a short code; mixed strings of 4 to 3000 (one job: 70000) bytes over three alphabets, one byte symbolic', [job('qpack.cpp', 'huffman_encode', ['roundtrip'], {'n': [0, 1, 2]}), job('qpack.cpp', 'huffman_encode', ['roundtrip'], {'n': 3, 'cls': 1}, {'cls': [1, 2, 3, 4]}, ttime=1500, weight=3), job('qpack.cpp', 'huffman_mixed', ['text'], {'n': [4, 5, 9, 40, 300, 3000], 'kind': R(3), 'len': [5, 8, 13, 30]}, instr=900000000), job('qpack.cpp', 'huffman_mixed', ['text'], {'n': 70000, 'kind': 1, 'len': 6}, instr=900000000)], 'other longer strings (the encoder carries at most 7 bits from one symbol to the next, which pairs of symbols exercise in full)')
prop('C15', 'all byte strings of up to 2 bytes, and all of 1 or 2 (thorough: 3) bytes after 1, 2 and 3 leading 0xff bytes (the longest codes are 30 bits); runs of up to 38 one bits (EOS is 30) after a code of each length, then up to 15 free bits; codes of mixed strings of 3 to 600 bytes over three alphabets, one byte symbolic, whole, with one more byte of ones and with other padding', [job('qpack.cpp', 'huffman_decode', ['text', 'rejected'], {'n': [0, 1, 2]}), job('qpack.cpp', 'huffman_decode', ['text'], {'ones': [1, 2, 3], 'n': [1, 2], 'kinds': 1}), job('qpack.cpp', 'huffman_run', ['rejected'], {'len': [0, 5, 6, 7, 8, 10, 11, 20], 'ones': [29, 30, 31, 38], 'more': [0, 1]}), job('qpack.cpp', 'huffman_run', ['text', 'rejected'], {'len': [0, 5, 6, 7, 8], 'ones': [1, 4, 9, 17, 23], 'more': [0, 1]}), job('qpack.cpp', 'huffman_mixed', ['text', 'rejected'], {'n': [3, 7, 61, 600], 'kind': R(3), 'len': [6, 7, 10, 11, 12, 14, 15, 20, 21, 22, 23, 24, 26, 28]}, instr=900000000)], 'longer strings')
prop('C16', 'encoding: all strings of up to 3 (thorough: 4) bytes, all strings of one repeated byte of 24, 126 to 130, 255, 256, 300 and 600 bytes; decoding: all byte strings of up to 3 (thorough: 4) bytes with prefix 3 and 7; plain and Huffman literals of 6, 7, 8, 126, 127, 128, 255, 256, 300 and 600 encoded bytes with up to 2 superfluous continuation bytes in their length, whole, followed by more or cut, in a buffer or a chain; mixed strings of 5 to 3000 (one job: 70000) bytes over three alphabets, one byte symbolic',
  [job('qpack.cpp', 'literal_encode', ['plain', 'huffman'], {'n': [0, 1, 2, 3]}, {'n': R(5)}), job('qpack.cpp', 'literal_encode', ['plain', 'huffman'], {'n': 1, 'rep': [24, 126, 127, 128, 130, 255, 256, 300, 600]}), job('qpack.cpp', 'literal_decode', ['text', 'rejected', 'incomplete'], {'n': R(4), 'prefix': [3, 7]}, {'n': R(5)}), job('qpack.cpp', 'literal_long', ['text', 'incomplete'], {'len': [0, 1, 6, 7, 8, 126, 127, 128, 255, 256, 300, 600], 'prefix': [3, 7], 'sparse': 1}), job('qpack.cpp', 'literal_mixed', ['plain', 'huffman'], {'n': [5, 126, 130, 160, 300, 3000], 'kind': R(3), 'len': [5, 8, 22]}, instr=900000000), job('qpack.cpp', 'literal_mixed', ['plain', 'huffman'], {'n': 70000, 'kind': [0, 2], 'len': 6}, instr=900000000)], 'longer literals of mixed bytes')
prop('C17', 'headers with a name of up to 2 and a value of up to 1 symbolic bytes (thorough: 3 and 2), first, second or third in their block, with a refused one before; names of 6 to 8, 14, 15, 130, 300 and values of 126 to 130, 255, 256, 300, 600 bytes of one repeated symbolic byte; names of 4 to 300 and values of 5 to 500 mixed bytes of which one is symbolic',
  [job('qpack.cpp', 'field_encode', ['refused', 'encoded'], {'name': [0, 1, 2], 'value': [0, 1], 'second': [0, 1, 2, 3]}, {'name': R(4), 'value': R(3)}), job('qpack.cpp', 'field_encode', ['refused', 'encoded'], {'name': 1, 'value': 1, 'nrep': [6, 7, 8, 14, 15, 130, 300]}), job('qpack.cpp', 'field_encode', ['encoded'], {'name': [1, 2], 'value': 1, 'vrep': [6, 126, 127, 128, 130, 255, 256, 300, 600], 'second': [0, 1]}), job('qpack.cpp', 'field_encode', ['encoded'], {'name': 1, 'value': 1, 'nrep': [4, 7, 20, 300], 'vrep': [5, 60, 127, 500], 'mix': R(1, 4)}, instr=900000000)], 'longer names and values except those of the static table (C19); XXH64 is executed on concrete strings and otherwise replaced by a function that separates the table strings from all others')
prop('C18', 'all byte strings of up to 5 bytes as a header block; field lines of all five forms with every index up to 120, padded integers, plain and Huffman names of 0, 1, 6, 7, 8, 130, 300 and values of 0, 1, 126, 127, 128, 130, 300 bytes, whole, followed by more or cut, in a buffer or a chain with every cut (long lines: in the first and last 10 bytes and the middle); blocks of 100 headers; a line of 16 and 65 KiB',
  [job('qpack.cpp', 'field_decode', ['header', 'rejected', 'incomplete'], {'n': R(6)}), job('qpack.cpp', 'line_forms', ['header', 'rejected', 'incomplete'], {'form': 0, 'sparse': 1, 'pad': 2}), job('qpack.cpp', 'line_forms', ['rejected'], {'form': [3, 4], 'sparse': 1}), job('qpack.cpp', 'line_forms', ['header', 'rejected', 'incomplete'], {'form': 1, 'value': 1, 'sparse': 1}, weight=3), job('qpack.cpp', 'line_forms', ['header', 'rejected', 'incomplete'], {'form': 1, 'max': 0, 'value': [0, 126, 127, 128, 130, 300], 'sparse': 1}), job('qpack.cpp', 'line_forms', ['header', 'rejected', 'incomplete'], {'form': 2, 'name': [0, 1, 6, 7, 8], 'value': [0, 1], 'sparse': 1}), job('qpack.cpp', 'line_forms', ['header', 'rejected', 'incomplete'], {'form': 2, 'name': 130, 'value': 2, 'sparse': 1}, {'name': [130, 300], 'value': [2, 130]}),
   job('qpack.cpp', 'field_decode', ['header', 'rejected', 'incomplete'], {'n': [5, 6], 'form': R(5)}, thorough_only=True), job('stream.cpp', 'headers_long', ['end'], {'value': [16376, 65600], 'sparse': 1}, instr=900000000), job('stream.cpp', 'message_many', ['end'], {'headers': 100, 'parts': 2, 'piece': 61}, instr=900000000)], 'other longer blocks except as produced by the encoder (C17, C19, C20)')
prop('C19', 'every entry of the 99-entry static table exactly, with any one byte of name or value changed, extended or cut short; names and values whose XXH64 collides with a table string; every index up to 300 (thorough: 2^62) in both index forms', [job('qpack.cpp', 'table_encode', ['encoded'], {'mode': R(7), 'count': 13, 'from': R(0, 99, 13)}), job('qpack.cpp', 'table_collision', ['collision']), job('qpack.cpp', 'table_decode', ['entry', 'rejected'], {'max': 300}, {'max': (1 << 62) - 1})], 'XXH64 on symbolic strings is replaced by a function that separates the table strings from all others; its collisions are sampled by construction (table_collision)')
prop('C20', 'blocks of 2 and 3 lines of three shapes with symbolic contents, cut at every place (thorough: 2 lines at every two places); blocks of 100 lines with values of up to 39 bytes (two of them symbolic) in pieces of 61 bytes and whole', [job('qpack.cpp', 'split_decode', ['end'], {'lines': 2}, {'cuts': [1, 2]}), job('qpack.cpp', 'split_decode', ['end'], {'lines': 3}, weight=2), job('stream.cpp', 'message_many', ['end'], {'headers': 100, 'parts': 2, 'piece': [0, 61]}, instr=900000000)], 'blocks of more than three lines')
# ---- streams
prop('C21', 'blocks of up to 3 headers of four shapes with symbolic contents, cut at every place, refused headers in between; blocks of one or two lines around 63 / 64, 16383 / 16384 bytes (cut in the first and last 10 bytes and the middle); frames of every other known type first; blocks of 100 headers with values of up to 39 bytes; a line of 65 KiB',
  [job('stream.cpp', 'headers_codec', ['end', 'refused', 'empty'], {'headers': [1, 2, 3]}), job('stream.cpp', 'headers_long', ['end'], {'value': [1, 57, 58, 59, 60, 61, 200, 16374, 16376, 16377], 'sparse': 1}, {'value': R(54, 64) + [126, 127, 128, 300] + R(16372, 16380)}, instr=60000000), job('stream.cpp', 'foreign_frame', ['delegated', 'empty frame'], {'form': R(4), 'body': 0}), job('stream.cpp', 'message_many', ['end'], {'headers': 100, 'parts': 2, 'piece': 7, 'id': 1200}, instr=900000000), job('stream.cpp', 'headers_long', ['end'], {'value': 65600, 'sparse': 1}, instr=900000000)], 'blocks of more headers')
prop('C22', 'every history of 4 and, with parts of 0 and 1 bytes, 5 calls of add, encode and fin with parts of 0, 1, 3 (second job: 21, 64) symbolic bytes, the wire bytes decoded with every cut; parts of 63, 64, 16383, 16384 and 65536 bytes; DATA frames of any announced size (all four length forms) of which the first bytes arrived; frames of every other known type; 300 and 1200 parts of 0 to 36 bytes',
  [job('stream.cpp', 'body_codec', ['end'], {'depth': 4, 'sizes': 2}), job('stream.cpp', 'body_codec', ['end'], {'depth': 5, 'sizes': 1}, {'sizes': 2}), job('stream.cpp', 'body_codec', ['end'], {'depth': 3, 'sizes': 4}), job('stream.cpp', 'body_long', ['end'], {'size': [1, 20, 63, 64, 16383, 16384, 65536], 'sparse': 1}, instr=60000000), job('stream.cpp', 'body_partial', ['partial', 'whole'], {'form': R(4), 'n': [3, 5]}, {'n': [3, 5, 8]}), job('stream.cpp', 'foreign_frame', ['delegated'], {'form': R(4), 'body': 1}), job('stream.cpp', 'message_many', ['end'], {'headers': 1, 'parts': [300, 1200], 'piece': [0, 61]}, instr=900000000)], 'longer histories')
prop('C23', 'every history of 5 (thorough: 6) calls of header, start, body, fin and send, then the message is completed and drained; 100 headers and 300 parts, sent as they come or all at once', [job('stream.cpp', 'sender_ops', ['end'], {'depth': 5, 'op0': R(5)}, {'depth': [4, 6]}), job('stream.cpp', 'message_many', ['end'], {'headers': 100, 'parts': 300, 'piece': 0}, instr=900000000)], 'longer histories; headers and parts of other sizes')
prop('C24', 'messages of 1 or 2 field lines of three shapes and up to 2 body parts of 0 or 1 (also 21, 64) symbolic bytes, unknown frames between any two, one- and two-byte lengths, cut at every place and pair of places; messages with values of 62, 130, 300 and parts of 0 to 300 bytes, types and lengths in every integer width, cut in the first and last 10 bytes and the middle; FIN with the last bytes or alone, at a client and a server; messages of 100 headers and 300 parts in pieces of 61 bytes, of 12 headers and 40 parts byte by byte (thorough: 1200 headers)',
  [job('stream.cpp', 'receive_valid', ['done'], {'unknown': 0, 'cuts': 2, 'lines': [1, 2], 'data': [0, 1], 'kind': R(3)}), job('stream.cpp', 'receive_valid', ['done', 'unknown frame'], {'unknown': [1, 2, 4], 'cuts': 1, 'lines': 1, 'data': 2}, {'lines': [1, 2]}), job('stream.cpp', 'receive_valid', ['done'], {'unknown': 0, 'cuts': 1, 'parts': 4, 'lines': 1, 'data': 2}), job('stream.cpp', 'receive_valid', ['done'], {'unknown': 0, 'cuts': 2, 'long': 1}),
   job('stream.cpp', 'receive_valid', ['done'], {'unknown': [0, 1], 'cuts': 2, 'lines': 2, 'data': 2}, thorough_only=True), job('stream.cpp', 'receive_valid', ['done'], {'unknown': 7, 'cuts': 1, 'lines': 1, 'data': [1, 2]}, thorough_only=True), job('stream.cpp', 'receive_valid', ['done'], {'unknown': 0, 'cuts': 3, 'lines': 1, 'data': 1}, thorough_only=True),
   job('stream.cpp', 'receive_long', ['done'], {'value': [62, 130], 'body': [0, 1, 130], 'cuts': 2, 'sparse': 1}), job('stream.cpp', 'receive_long', ['done'], {'value': [62, 130], 'body': [3, 130], 'cuts': 1, 'widths': 1, 'sparse': 1}), job('stream.cpp', 'receive_long', ['done'], {'value': [0, 300], 'body': [64, 300], 'parts': 2, 'cuts': 1, 'sparse': 1}), job('stream.cpp', 'message_many', ['end'], {'headers': 100, 'parts': 300, 'piece': [61, 600]}, instr=900000000), job('stream.cpp', 'message_many', ['end'], {'headers': 12, 'parts': 40, 'piece': 1}, instr=900000000), job('stream.cpp', 'message_many', ['end'], {'headers': 1200, 'parts': 2, 'piece': 300}, thorough_only=True, instr=900000000)], 'messages with more lines and parts; trailers are not implemented by the code (they end the message)')
prop('C25', 'arbitrary bytes at a request stream of a client and a server: 4 (thorough: 5) bytes from the start of the stream, 3 (4) bytes after a complete header block, 2 (3) bytes inside a block of any size, 3 (4) bytes inside a DATA frame of any size below 2^62 (length in 1, 2, 4 or 8 bytes); cut at every place, with and without FIN, in the last piece or alone',
  [job('stream.cpp', 'receive_any', ['error', 'open'], {'mode': 0, 'n': [0, 1, 2, 3, 4], 'first': [0, 1, 2, 4, 256]}, {'n': R(6), 'first': [0, 1, 2, 3, 4, 5, 7, 0xd, 0xe, 256]}), job('stream.cpp', 'receive_any', ['error', 'open', 'done'], {'mode': 1, 'n': [0, 1, 2, 3], 'first': [0, 1, 2, 5, 7, 256]}, {'n': R(5)}), job('stream.cpp', 'receive_any', ['error', 'open', 'overrun'], {'mode': 2, 'n': [1, 2]}, {'n': R(4)}, weight=9), job('stream.cpp', 'receive_any', ['error', 'open'], {'mode': 2, 'n': 1, 'form': [1, 2, 3]}), job('stream.cpp', 'receive_any', ['error', 'open'], {'mode': 3, 'n': 2, 'form': [1, 2, 3]}, {'n': [2, 3]}), job('stream.cpp', 'receive_any', ['error', 'open', 'done'], {'mode': 3, 'n': 3, 'first': [0, 1, 256]}, {'n': [3, 4]}, weight=5)], 'longer inputs; field lines start with a static index 17 or 63, a name reference or a literal name in mode 2')
prop('C26', 'two streams and three handles, every history of 3 (thorough: 4) of: take a handle, move-construct, move-assign and destroy handles, move-construct, move-assign and destroy streams', [job('stream.cpp', 'handles', ['end', 'linked'], {'depth': 3, 'op0': R(7)}, {'depth': 4})], 'longer histories, more streams and handles')
prop('C27', 'the (deterministic) output of client and server control streams', [job('stream.cpp', 'control_sender', ['end'])], 'settings other than the defaults: the code has no way to set them')
prop('C28', 'arbitrary bytes on the control stream of a client and a server: 5 (thorough: 6) bytes from the start, 5 (6) after the type, 5 (6) after SETTINGS; cut at every place, then FIN; SETTINGS of 20 and 100 pairs with any values of the known settings, unknown frames of 0 to 600 bytes before and after, then any refused frame, in pieces of five sizes', [job('stream.cpp', 'control_receiver', ['missing', 'settings', 'other type'], {'pre': 0, 'n': R(6)}, {'n': R(7)}), job('stream.cpp', 'control_receiver', ['missing', 'settings', 'malformed'], {'pre': 1, 'n': R(6), 'first': [4, 2, 256]}, {'n': R(7), 'first': [0, 1, 2, 3, 4, 5, 7, 0xd, 0xe, 256]}), job('stream.cpp', 'control_receiver', ['later frame'], {'pre': 2, 'n': R(6), 'first': [0, 1, 2, 3, 4, 5, 7, 0xd, 0xe, 256]}, {'n': R(7)}), job('stream.cpp', 'control_many', ['end'], {'pairs': [20, 100], 'len': [30, 300]}, instr=900000000)], 'other longer inputs')
# ---- connections
prop('C29', 'one and two requests with responses: up to 2 headers and 2 body parts (1 and 22 bytes, symbolic), API calls split at every point, streams delivered in every order, whole or in pieces, responses after the request, as soon as its headers are in, and delivered whole or in part while the request is still open; three whole requests; two and three rounds of exchanges after one another on one connection; parts of 300 bytes; two requests on any two streams; 100 requests and responses, all open at once or 7 at a time, and 300 (7 at a time), answered in three orders',
  [job('connection.cpp', 'exchange', ['end'], {'mode': [1, 8, 17], 'early': [0, 1]}), job('connection.cpp', 'exchange', ['end'], {'mode': [2, 10], 'splits': 1, 'rsplits': 1, 'early': [0, 1]}), job('connection.cpp', 'exchange', ['end'], {'mode': 1, 'requests': 2, 'splits': [1, 2], 'rsplits': [0, 2], 'early': [0, 1]}),
   job('connection.cpp', 'server_streams', ['end']), job('connection.cpp', 'exchange', ['end'], {'mode': [33, 49], 'early': 1, 'rsplits': 3}), job('connection.cpp', 'exchange', ['end'], {'mode': 49, 'early': 1, 'requests': 2, 'splits': 2, 'rsplits': 2}), job('connection.cpp', 'exchange', ['end'], {'mode': 1, 'requests': 3, 'splits': 0, 'rsplits': 0}), job('connection.cpp', 'exchange', ['end'], {'mode': [1, 17], 'rounds': 2, 'splits': 1, 'rsplits': 1, 'early': [0, 1]}), job('connection.cpp', 'exchange', ['end'], {'mode': 17, 'rounds': 2, 'requests': 2, 'splits': 0, 'rsplits': 0}), job('connection.cpp', 'exchange', ['end'], {'mode': 1, 'rounds': 3, 'splits': 1, 'rsplits': 0, 'early': 1}), job('connection.cpp', 'exchange', ['end'], {'mode': [1, 17], 'psize': 300}), job('connection.cpp', 'exchange', ['end'], {'mode': 17, 'requests': 2, 'splits': 3, 'rsplits': 3}, weight=2), job('connection.cpp', 'exchange', ['end'], {'mode': 2, 'splits': 4, 'rsplits': 4}, weight=6),
   job('connection.cpp', 'exchange', ['end'], {'mode': [4, 12], 'splits': 1, 'rsplits': 0, 'extra': 0, 'parts': 1, 'rparts': 0, 'early': [0, 1]}, thorough_only=True), job('connection.cpp', 'exchange', ['end'], {'mode': [3, 19], 'early': [0, 1]}, thorough_only=True), job('connection.cpp', 'exchange', ['end'], {'mode': 17, 'requests': 2, 'early': [0, 1]}, thorough_only=True), job('connection.cpp', 'exchange_many', ['end'], {'requests': 100, 'together': [7, 100]}, instr=900000000), job('connection.cpp', 'exchange_many', ['end'], {'requests': 300, 'together': 7}, instr=900000000)], 'more requests; pieces other than halves in the quick tier')
prop('C30', 'a client with two requests and a server with one: every history of 2 events and calls over nine stream ids and five protocol fragments or arbitrary bytes, of 3 over one id; generators kept across an answer',
  [job('connection.cpp', 'server_any', ['end'], {'depth': 2, 'ids': 8, 'op0': R(4), 'open': [0, 1]}), job('connection.cpp', 'client_any', ['end'], {'depth': 2, 'ids': 8, 'op0': R(4), 'sent': [0, 1]}), job('connection.cpp', 'server_any', ['end'], {'depth': 3, 'ids': 1, 'pieces': 3, 'op0': 0}), job('connection.cpp', 'server_any', ['end'], {'depth': 3, 'ids': 2, 'op0': [1, 3]}), job('connection.cpp', 'generator_lifetime', ['end', 'answered', 'rest']),
   job('connection.cpp', 'server_any', ['end'], {'depth': 3, 'ids': 8, 'op0': 0, 'id0': R(9)}, thorough_only=True), job('connection.cpp', 'client_any', ['end'], {'depth': 3, 'ids': 8, 'op0': 0, 'id0': R(9)}, thorough_only=True), job('connection.cpp', 'server_any', ['end'], {'depth': 2, 'ids': 3, 'n': [2, 3], 'op0': 0}, thorough_only=True)], 'longer histories')
prop('C31', 'three requests, and three responses to whole or unfinished requests, in every combination of started and closed, a moved connection; 3 (thorough: 4) arbitrary bytes, with or without a header block before and FIN after, on another request or a unidirectional stream before, between and after the two halves of a good message; 60 requests open at once',
  [job('connection.cpp', 'scheduling', ['end']), job('connection.cpp', 'server_scheduling', ['end']), job('connection.cpp', 'isolation', ['end', 'error', 'event', 'ignored'], {'server': [0, 1], 'bad': 4, 'n': [1, 2, 3]}, {'n': [1, 2, 3, 4]}), job('connection.cpp', 'exchange_many', ['end'], {'requests': 60}, instr=900000000)], 'more streams')
# ---- bnl-quic, over a recording model of ngtcp2 and BoringSSL
def iojob(h, entry, reach=(), p=None, tp=None, **kw): return job(h, entry, reach, dict(p or {}, unwind=1), dict(tp, unwind=1) if tp else None, lib='io', **kw)
def mjob(entry, reach=(), p=None, tp=None, **kw): return job('quicmany.cpp', entry, reach, p, tp, lib='quic', instr=900000000, **kw)
def qjob(entry, reach=(), p=None, tp=None, **kw): return job('quic.cpp', entry, reach, p, tp, lib='quic', **kw)
prop('C32', 'all three AEADs and both hashes, secrets of 0, 1, 32, 48, 255, 256 and 300 symbolic bytes, salts of 0, 10 and 20, each of the first three library calls failing',
  [qjob('key_schedule', ['extract', 'update', 'initial', 'keys', 'failure'], {'n': [0, 1, 32, 48, 255, 256, 300]})], 'the HKDF computation itself (it is in the TLS library; what is decided is every argument and the use of every result)')
prop('C33', 'all three AEADs, texts of 0 to 4 (thorough: 12) and associated data of 0 to 2 symbolic bytes, all samples, each library call failing, inputs too short for a tag; texts of 64 and 300 bytes',
  [qjob('packet_protection', ['aes', 'chacha', 'sealed', 'opened', 'failure'], {'n': 4}, {'n': 12}), qjob('packet_protection', ['sealed', 'opened'], {'text': [64, 300]})], 'the ciphers themselves (they are in the TLS library)')
prop('C34', 'one bidirectional and one unidirectional stream: every history of 3 and, in two jobs, 4 (thorough: 5) out of add data of 0, 1, 3, 20, 21 symbolic bytes, add the end, send with every outcome of the transport (blocked, congested, a packet without stream data, every accepted amount, failure), acknowledge; then drained with 1 to 7 bytes per packet; streams of 100 and 40 parts of 0 to 29 and 0 to 70 bytes, one byte symbolic, sent and acknowledged in portions of 1 to 700; 70 streams at once, of which a third may be opened at first; 40 parts on one stream and 40 streams after one another, each sent and acknowledged before the next',
  [qjob('stream_history', ['end'], {'depth': 4, 'accept': 7}), qjob('stream_history', ['end'], {'depth': 3, 'sizes': 4, 'uni': [0, 1], 'blocked': [0, 1], 'accept': [3, 7]}), qjob('stream_history', ['end'], {'depth': 4, 'sizes': 2, 'blocked': 1, 'accept': 1}, {'depth': 5}), mjob('stream_many', ['end']), mjob('stream_many', ['end'], {'parts': 40, 'size': 70}), mjob('streams_many', ['end']), mjob('release_many', ['end'], {'size': [1, 30]})], 'longer histories; data is acknowledged in order, as ngtcp2 reports it')
prop('C35', 'the creation of a connection over IPv4 and IPv6; every history of 1 (with fewer choices 2) of: first flight, handshake data received at each level, key update, acknowledgement, send; TLS in between doing nothing, producing data or secrets at each level, and going on, finishing or failing; all cipher suites and an unknown one, each of the first 10 library calls failing',
  [qjob('handshake_start', ['end']), qjob('handshake_history', ['end', 'started', 'handshake data', 'early', 'handshake keys', 'application keys', 'crypto error', 'completed'], {'depth': 1, 'suite': R(4), 'cipher': [0, 1]}), qjob('handshake_history', ['end', 'acked'], {'lean': 1, 'depth': 2, 'op0': [0, 1, 2, 4], 'faults': 5}, weight=4), qjob('handshake_history', ['end', 'updated', 'failed update'], {'secrets': 1, 'op0': 2, 'depth': 1, 'lean': 1, 'suite': R(3)}), qjob('handshake_history', ['end', 'updated', 'failed update'], {'secrets': 1, 'op0': 2, 'depth': 2, 'lean': 1, 'suite': 0}), qjob('handshake_history', ['end', 'updated', 'failed update'], {'secrets': 1, 'op0': 2, 'depth': 2, 'lean': 1, 'suite': [1, 2], 'plain': 1}), qjob('handshake_history', ['end', 'post handshake'], {'done': 1, 'op0': 1, 'depth': 1}),
   qjob('handshake_history', ['end', 'acked'], {'lean': 1, 'depth': 2, 'op0': [0, 1, 2, 4], 'suite': R(4)}, thorough_only=True, weight=4)], 'longer handshakes; TLS itself (it is in the TLS library)')
prop('C36', 'packets with up to 2 (two packets: 1) frames out of stream data of 0, 2, 21 symbolic bytes on any stream, resets, opened and closed streams, new limits, refused or not, read in any portions; 2 and 3 streams with data and every outcome of 1 and 2 sends, with and without a pending handshake, control packets, stream limits and failures; a packet of 1252 bytes with 12 pieces of up to 1200 bytes, and one with 100 pieces; 70 streams with data',
  [qjob('connection_events', ['data', 'reset', 'refused', 'end'], {'packets': 1}), qjob('connection_events', ['data', 'reset', 'refused', 'end'], {'packets': 2, 'frames': 1}), qjob('connection_send', ['packet', 'failure', 'waiting', 'stream packet', 'stream failure', 'idle', 'end'], {'depth': [1, 2]}, {'depth': [1, 2, 3]}), qjob('connection_send', ['packet', 'failure', 'waiting', 'stream packet', 'stream failure', 'idle', 'end'], {'depth': 1, 'streams': 3}, {'depth': [1, 2]}), mjob('events_many', ['end'], {'pieces': 12}), mjob('events_many', ['end'], {'pieces': 100, 'size': 60}), mjob('streams_many', ['end'], {'size': [1, 45]})], 'more streams and packets; streams opened out of order (the code requires ascending order)')
prop('C37', 'all addresses, ports, times, identifier sizes of 4 to 18 and up to 20 random bytes, all cipher suites and none, texts of up to 2 symbolic bytes, each library call failing; texts and random bytes of 64 and 300 bytes',
  [qjob('transport_services', ['path', 'unsupported', 'preferred', 'random', 'loss', 'no loss', 'encrypt', 'decrypt', 'mask', 'cipher failure', 'end']), qjob('transport_services', ['random', 'encrypt', 'decrypt', 'end'], {'text': [64, 300]})], 'the quality of random numbers; stateless resets and retries are not implemented by the code')
# ---- tools, errors, log
prop('C38', 'encoding: files of up to 3 lines (one job: 4) with 0 to 3 symbolic bytes each, up to 3 and 256 and 300 lists of up to 3 headers of known sizes, a list of 64 KiB with two symbolic bytes; decoding: streams of 0 to 4 (thorough: 5) arbitrary bytes as up to 2 blocks, with the encoder stream and with truncated records; every wrong command line',
  [iojob('interop.cpp', 'interop_encode', ['roundtrip', 'refused'], {'lines': 3, 'first': R(4)}, weight=3), iojob('interop.cpp', 'interop_encode', ['roundtrip', 'two lists', 'comment', 'empty'], {'lines': [1, 2], 'len': 2}, weight=2), iojob('interop.cpp', 'interop_many', ['end'], {'lists': [1, 2, 3], 'size': [0, 1, 20], 'open': [0, 1]}), iojob('interop.cpp', 'interop_big', ['end'], {'size': 65600}, instr=900000000),
   iojob('interop.cpp', 'interop_decode', ['decoded', 'refused'], {'mode': 0, 'records': 1, 'n': R(5)}, {'n': R(6)}, weight=2), iojob('interop.cpp', 'interop_decode', ['decoded', 'refused'], {'mode': 0, 'records': 2, 'n': 3}, weight=2), iojob('interop.cpp', 'interop_decode', ['refused'], {'mode': [1, 2], 'records': 1, 'n': [2, 4]}), iojob('interop.cpp', 'interop_usage', ['usage', 'empty']), iojob('interop.cpp', 'interop_missing', ['end'])], 'longer lines and files; the file system (memory files under the real std::fstream code take its place)')
prop('C39', 'every pair of errors of each layer, every 32-bit code', [iojob('misc.cpp', 'error_codes_http3', ['end']), iojob('misc.cpp', 'error_codes_quic', ['end']), iojob('misc.cpp', 'error_codes_any', ['unknown'])], 'nothing: the input space is covered')
L = lambda d: dict(d, log=1)
prop('C40', 'histories of C09, C17, C18, C21 to C25, C28 to C31 and C34 to C37 with smaller bounds and a logger installed; library texts of 3, 21 and 300 symbolic bytes',
  [job('codec.cpp', 'frame_decode', ['logged'], L({'n': R(1, 5), 'first': [0, 1, 4, 0xd, 256]})), job('qpack.cpp', 'field_decode', ['logged'], L({'n': [2, 3, 4]})), job('qpack.cpp', 'field_encode', ['logged'], L({'name': 1, 'value': 1})), 
   job('stream.cpp', 'body_codec', ['end'], L({'depth': 3, 'sizes': 2})), job('stream.cpp', 'headers_codec', ['end'], L({'headers': 1})), job('stream.cpp', 'sender_ops', ['end'], L({'depth': 3, 'op0': R(5)})), job('stream.cpp', 'receive_any', ['logged'], L({'mode': 0, 'n': [3], 'first': [0, 1, 4, 256]})), job('stream.cpp', 'receive_any', ['logged'], L({'mode': [1, 2], 'n': 2})), job('stream.cpp', 'control_receiver', ['logged'], L({'mode': [0, 1], 'n': 3})),
   job('connection.cpp', 'server_any', ['logged'], L({'depth': 2, 'ids': 3, 'op0': R(4)})), job('connection.cpp', 'client_any', ['logged'], L({'depth': 2, 'ids': 3, 'op0': R(4), 'sent': 1})), job('connection.cpp', 'isolation', ['logged'], L({'server': [0, 1], 'bad': 4, 'n': 2})), job('connection.cpp', 'exchange', ['end'], L({'mode': 1})),
   qjob('stream_history', ['logged'], L({'depth': 3, 'accept': 7})), qjob('handshake_history', ['logged'], L({'depth': 1, 'suite': 1})), qjob('connection_events', ['logged'], L({'packets': 1})), qjob('transport_services', ['logged'], L({})), qjob('log_text', ['end', 'error queue', 'transport'], {'n': [3, 21, 99]}), qjob('log_text', ['end'], {'n': 300})], 'messages that no history within the bounds reaches; longer texts')
prop('C41', 'all levels, one and two messages with 0 to 8 (one thorough job: 40) symbolic bytes as an argument, or 300 and 600 of which one is symbolic, with and without source', [iojob('misc.cpp', 'console_log', ['end'], {'n': [0, 2, 8, 300, 600]}, {'n': [0, 2, 8, 40, 300, 600]})], 'the time stamp and colours; stdout and stderr (captured)')
# ---- the sample client, over models of the operating system and the event loop
def cjob(entry, reach=(), p=None, tp=None, **kw): return job('client.cpp', entry, reach, p, tp, lib='client', **kw)
def ajob(entry, reach=(), p=None, tp=None, **kw): return job('app.cpp', entry, reach, p, tp, lib='app', **kw)
prop('C42', 'three descriptors: every history of 4 (thorough: 5); opening a socket with any IPv4 or IPv6 address, each system call failing with any error; a socket: every history of 4 (thorough: 5) out of add, send, receive, arrival and error query with datagrams of 1 and 3 (one job: 21, from 0 on the way in) symbolic bytes, arriving between any two calls, a full socket, each call failing; 100 datagrams of up to 1200 bytes, a socket that is full now and then',
  [ajob('fd_ops', ['assigned', 'end'], {'depth': 4}, {'depth': 5}), ajob('udp_open', ['open', 'failed'], {'unwind': 1}), ajob('udp_io', ['idle', 'send failed', 'full', 'received', 'recv failed', 'empty', 'error', 'end'], {'depth': 4}, {'depth': 5}), ajob('udp_io', ['received', 'end'], {'depth': 3, 'big': 1}, {'depth': 4}), job('appmany.cpp', 'udp_many', ['end'], {'max': [21, 1200, 1472]}, lib='app', instr=900000000), job('appbig.cpp', 'udp_many', ['end'], {'count': 8, 'max': 65508, 'step': [16383, 20011]}, lib='app', instr=900000000)], 'longer histories; the kernel (a model of its calls takes its place)')
prop('C43', 'one I/O event, one timer, one signal, each registration failing: every history of 3 (thorough: 4) of firing, setting, moving and replacing; two sources of each kind of which one takes the place of the other; every way a loop ends; all errors; lookups of up to 3 addresses of both families and every result, of 20 and 300 addresses with repeated ones; every result of parsing an address',
  [ajob('event_sources', ['io', 'timer', 'assigned', 'end'], {'depth': 3}, {'depth': 4}), ajob('event_loop', ['end', 'no loop'], {'unwind': 1}), ajob('event_replace', ['replaced', 'end']), ajob('app_errors', ['end']), ajob('lookup', ['failed', 'duplicate', 'end'], {'n': 3}, {'n': 4}), job('appmany.cpp', 'lookup_many', ['duplicate', 'end'], {'n': [20, 300]}, lib='app', instr=900000000), ajob('parse_address', ['parsed', 'failed', 'no address'])], 'the event loop and the resolver themselves (models take their place)')
prop('C44', 'one request and its response: every history of 2 (with a socket that is never full 4; thorough: 3 and 5) out of writable, readable, both, a socket error and the next timer, a socket that is full or not at every send, a response in one to three packets cut anywhere, acknowledged or not, with a violation of the protocol, a handler that fails at any event, each call failing, also while the client is set up; the whole program with every command line and up to 3 events; a response of up to 30 headers and 9000 bytes of body in up to 45 pieces, two bytes symbolic, also printed by the whole program',
  [cjob('client_history', ['drained', 'waiting', 'received', 'retransmission', 'timeout', 'socket error', 'signal', 'response', 'end'], {'depth': 2}, weight=2), cjob('client_history', ['drained', 'received', 'response', 'retransmission', 'signal', 'end'], {'depth': 4, 'block': 0}, {'depth': 5}), cjob('client_history', ['failure', 'end'], {'depth': 2, 'fail': 40, 'op0': [0, 1, 2, 3]}), cjob('client_history', ['violation'], {'depth': 2, 'bad': 1, 'op0': 0}), cjob('client_history', ['handler error'], {'depth': 2, 'stop': 1, 'op0': 0, 'block': 0}), cjob('client_history', ['response'], {'depth': 2, 'cuts': 1, 'op0': 0, 'block': 0}), cjob('client_history', ['drained', 'end'], {'depth': 2, 'op0': 0, 'move': 1}), cjob('client_history', ['drained', 'end'], {'depth': 1, 'first': 0}),
   cjob('client_start', ['started', 'not started', 'end'], {'unwind': 1}), cjob('client_main', ['usage', 'no host', 'printed', 'ended', 'end'], {'depth': 3, 'unwind': 1}), cjob('client_main', ['printed', 'ended', 'end'], {'depth': 3, 'op0': [0, 1], 'cut': [8, 9], 'unwind': 1}), cjob('client_main', ['failed', 'end'], {'depth': 2, 'op0': 0, 'unwind': 1, 'fail': 45}), cjob('client_history', ['response', 'drained', 'received', 'end'], {'depth': 3, 'op0': 0, 'block': 0, 'body': [600, 9000], 'headers': [2, 30], 'piece': 251}, instr=900000000), cjob('client_main', ['printed', 'ended', 'end'], {'depth': 3, 'op0': 0, 'body': [600, 9000], 'headers': 30, 'piece': 251, 'unwind': 1}, instr=900000000),
   cjob('client_history', ['waiting', 'end'], {'depth': 3, 'op0': [0, 1, 2, 3, 4]}, thorough_only=True), cjob('client_history', ['handler error'], {'depth': 3, 'stop': 1, 'op0': [0, 1, 2]}, thorough_only=True), cjob('client_history', ['response'], {'depth': 2, 'cuts': 1}, thorough_only=True)], 'more requests; the transport, the loop and the kernel (stand-ins take their place; the transport is decided by C34 to C37)')
prop('C45', 'texts of 0 to 3 (one job: 21) symbolic bytes, or 300 of which one is symbolic; IPv4 addresses with two bytes of any value (thorough: all four); events with any id and errors with any code of 8 bits or one of eleven larger values, sizes 0, 3, 300 and 70000; all frame types with any fields; all algorithms',
  [iojob('text.cpp', 'text_strings', ['host', 'end'], {'n': [1, 3], 'm': [0, 2]}), iojob('text.cpp', 'text_strings', ['end'], {'n': [0, 21, 300], 'm': [1, 300]}), iojob('text.cpp', 'text_ipv4', ['end'], {'wide': [3, 6, 12, 9]}, {'wide': 15}), iojob('text.cpp', 'text_event', ['end'], {'n': [0, 3, 300, 70000]}), iojob('text.cpp', 'text_error_event', ['end']), iojob('text.cpp', 'text_frame', ['end']), qjob('text_crypto', ['end'])], 'IPv6 addresses (printing them is not implemented); punctuation around the words of an event or a frame')
