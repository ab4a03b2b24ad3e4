"""Per property: what is specified and against what, and the measured cost of the quick check (s).  Read by meta.py for DESIGN.md."""
ORACLE = {
'C01': ('a mirror of each buffer as (bytes, size) with value semantics, updated next to the real object; engine object model for ownership (every block freed once, none left)', 8),
'C02': ('the concatenation of the chunks as one byte array; every operation compared with the same operation on the array', 10),
'C03': ('the unread bytes as an array per nesting level; the source compared before and after', 3),
'C04': ('element-wise comparison written in the harness; addresses against their byte order in the RFC text form', 3),
'C05': ('the fields an event was made from; block count', 2),
'C06': ('minimal encoding of RFC 9000 section 16 (`ref_varint_put`)', 2),
'C07': ('`ref_varint` on the same bytes; consumed count; untouched input on failure', 3),
'C08': ('reference frame encoder and decoder (`frame.h`)', 10),
'C09': ('`ref_frame` on the same bytes: frame and fields, or incomplete with nothing consumed, or malformed', 12),
'C10': ('the known frame behind the unknown one as decoded by `ref_frame`; peek against decode', 8),
'C11': ('`ref_frame` for SETTINGS with defaults of the repository\'s settings type', 10),
'C12': ('RFC 7541 section 5.1 (`ref_prefix_put`)', 4),
'C13': ('`ref_prefix`; the 62-bit limit as an error', 10),
'C14': ('the code table of RFC 7541 appendix B, bit by bit', 8),
'C15': ('a canonical decoder built from the same RFC table (`ref_huff`)', 10),
'C16': ('`ref_literal`; the shorter of the two forms', 12),
'C17': ('`ref_field` (QPACK field lines) on the produced bytes yields the given name and value', 12),
'C18': ('`ref_field` over the whole block', 15),
'C19': ('the 99 entries transcribed from the specification', 25),
'C20': ('the reference decoding of the whole block, pieces compared with it', 20),
'C21': ('the list of accepted headers; `ref_frame` for the length', 10),
'C22': ('the concatenation of parts; `ref_frame` per DATA frame', 11),
'C23': ('a state record of the five calls (accepted/refused) and `read_stream` on everything sent', 12),
'C24': ('`read_stream`: the message the bytes denote', 20),
'C25': ('`read_stream` incl. its first violation, per role', 42),
'C26': ('a table of which handle is linked to which stream', 12),
'C27': ('reference decoding of the produced bytes', 1),
'C28': ('reference decoding and the error each case names', 10),
'C29': ('the messages that were sent; a transport of per-stream byte queues', 16),
'C30': ('no violation of any safety condition, termination within a step bound, no leak', 32),
'C31': ('the events of the good message alone; the order of stream ids in the output', 5),
# bnl-quic, against the recording model of ngtcp2 and BoringSSL in harness/quicmodel.h
'C32': ('the recorded HKDF calls: the expected HkdfLabel is built in the harness from RFC 8446 7.1 and must occur with this secret, hash and length; the returned bytes must be its (unique, symbolic) output', 9),
'C33': ('the recorded cipher calls compared with the arguments; RFC 9001 5.4 for the masks', 2),
'C34': ('a model of the stream in the transport: bytes given, offered, accepted, acknowledged; every range in flight is compared with the original bytes at the pointer the transport was given, after every step', 22),
'C35': ('recorded calls on both sides: which data, secrets and keys crossed, at which level, derived from which secret', 12),
'C36': ('the list of frames the harness put into the packets; the list of pending streams before each send', 6),
'C37': ('the definition of each service in the ngtcp2 interface', 2),
}
ORACLE.update({
'C38': ('a line scanner written from the format (name, tab, value; # starts a comment; an empty line ends a list) over the text of the file, and the QPACK encoder and decoder decided by C17 to C20 for the blocks', 29),
'C39': ('the list of errors in the two result.hpp files with their names', 3),
'C40': ('a logger that matches the format of each message with its arguments; the assertions of the histories themselves, which are those of the property each entry belongs to', 33),
'C42': ('the owner of every descriptor and the list of datagrams added and arrived, kept by the harness; the model of the kernel checks each call', 12),
'C43': ('the handler and time set last, kept by the harness; the addresses, errors and times the models were told to give', 10),
'C44': ('what HTTP/3 alone gives for the same request; the packets, events and errors the models were told to give; the expiry the transport asked for', 60),
'C45': ('the text written out in the harness from the same bytes; libstdc++ streams and fmt executed for real', 13),
'C41': ('the text of the message with its arguments in place, searched in what each stream got', 2),
})
