p('C38', 'QPACK tools turn header files into blocks and back without loss', 'The encoding tool writes one record per header list of its input, with the announced length, and the decoding tool turns the records back into the same lists, in order. Comments and empty lines are no headers; the last list counts whether or not an empty line or a newline follows it. A line that is no header, a header that cannot be encoded, a cut record or a block that is no header block makes the tool fail, with the lists before it written; without arguments no file is touched, and a file that cannot be opened fails the tool.',
  'inputs', 'all short files of lines; streams of arbitrary bytes as records; all wrong command lines', 'The tools have no tests.', [H + 'app/qpack/qpack-interop-encode.cpp', H + 'app/qpack/qpack-interop-decode.cpp'], ('line scanning, list ends', H + 'app/qpack/qpack-interop-encode.cpp'), ('record header, block loop', H + 'app/qpack/qpack-interop-decode.cpp'))
p('C39', 'Every error is a distinct error code with its own name', 'Every error of the HTTP/3 and QUIC layers converts to a std::error_code that is an error exactly when it is not "no error", differs from that of every other error, belongs to the category of its layer, compares equal to its error and gives its name. A code that belongs to no error is named unknown; the two categories have different names and their errors never compare equal.',
  'inputs', 'all pairs of errors of both layers, all 32-bit codes', 'No test converts an error to a std::error_code; the values are 64 bits wide and a code has 32.', [B + 'src/base/system_error.cpp', B + 'include/bnl/base/system_error.hpp', B + 'include/bnl/http3/result.hpp', B + 'include/bnl/quic/result.hpp'], ('mapping to int and back, names', B + 'src/base/system_error.cpp'))
p('C40', 'Logging shows every argument and changes nothing', 'With a logger installed every call gives the results it gives without one. Each message has a level, a source, and a format that is well-formed for exactly the arguments that come with it; texts of the transport and TLS libraries are arguments, shown verbatim, never formats.',
  'histories inputs', 'histories of the other properties with a logger installed; all library texts up to 300 bytes', 'Tests run without a logger, so no format is ever matched with its arguments.', [B + 'include/bnl/base/log.hpp', B + 'src/base/log.cpp', Q + 'src/client/ngtcp2/connection.cpp', Q + 'src/client/handshake/boringssl.cpp', H + 'src'], ('BNL_LOG and its uses', 'BNL_LOG_* statements throughout bnl/'), ('log callback of ngtcp2, error queue of BoringSSL', Q + 'src/client/ngtcp2/connection.cpp log(), src/client/handshake/boringssl.cpp'))
p('C41', 'The console logger writes each message once, whole, to its stream', 'Every message becomes one line that holds its level and its text with all arguments, and its source if that was asked for. Warnings and errors go to standard error, all others to standard output, and nothing goes to the other stream.',
  'inputs histories', 'all levels, one and two messages with any argument text, with and without source', 'The log library has no tests.', ['bnl/log/src/console.cpp', 'bnl/log/include/bnl/log/console.hpp'], ('choice of stream, parts of a line', 'bnl/log/src/console.cpp'))
EP = H + 'app/endpoint/'
p('C42', 'Descriptors are closed once and datagrams pass whole and in order', 'A file descriptor is closed exactly once: when its last owner is destroyed or replaced, however owners are moved. A UDP socket is opened for the family of its peer and connected to it, knows both its ends, and otherwise is not constructed and leaves nothing open. Datagrams are sent whole, once and in the order they were added; one that the system does not take is kept. Each call of recv gives the next datagram of any size whole, whatever arrives meanwhile. Failures are reported with the error of the system, and only they.',
  'histories schedules fault_sequences inputs', 'short histories of descriptors and sockets, arrivals between any two system calls, each system call failing', 'The sample endpoint has no tests.', [EP + 'os/fd.cpp', EP + 'os/fd.hpp', EP + 'os/socket/udp.cpp', EP + 'os/ip'], ('ownership of the descriptor', EP + 'os/fd.cpp'), ('send queue, size of the next datagram', EP + 'os/socket/udp.cpp'))
p('C43', 'Timers, events, clocks and lookups reach their handlers; failures are errors', 'An I/O event or timer calls the handler set last, once, with the events or the time, wherever its source was moved to; a timer fires only when set. The clock of a loop gives the time of its timers and outlives moves of the loop. A loop ends with the error it was left with. A lookup gives every address found, once, in order. Every failure of the system, the loop or a lookup is an error code that says which; every error of the client is an error with its name.',
  'histories fault_sequences inputs', 'short histories of sources, all endings of a loop, all results of lookups and of parsing, each call failing', 'The sample endpoint has no tests.', [EP + 'sd/event', EP + 'os/dns.cpp', EP + 'os/ip/address.cpp', EP + 'os/result.cpp'], ('callbacks with back pointers kept by moves', EP + 'sd/event/source.cpp'), ('list of addresses, error of a lookup', EP + 'os/dns.cpp'))
p('C44', 'The client moves everything between its layers and ends with the reason', 'Before the client waits, everything that HTTP/3 and the transport have to send has been given on, in order and once, or the socket is full; and every datagram that arrived has been given to the transport and its events, in order, to HTTP/3 and the handler. The timers run to the expiry of the transport and to the end of the idle time. The client ends when its handler says so, on errors of the handler, the protocol, the transport or the socket, on the idle timeout and on SIGINT and SIGTERM, with that error; after that no handler is called. The program prints the headers and body of the response whole, and fails if there is none.',
  'schedules histories fault_sequences', 'short histories of socket and timer events around one exchange, each call failing, all command lines', 'The sample client has no tests and is not built by them.', [EP + 'client.cpp', EP + 'client.hpp'], ('send and receive loops, end of the loop', EP + 'client.cpp'))
p('C45', 'Values print as what they are, on streams and in log messages', 'A string view, a host, a header and an IPv4 address print exactly their text; a frame prints its type, an event its kind, id, end mark, size or error code, and an algorithm or encryption level its name. The text is the same on a fresh stream, after other text and as an argument of a log message, and leaves the stream usable.',
  'inputs', 'all short texts, all addresses, frame types, algorithms and levels, events with any id', 'No test prints a value.', [B + 'src/base/string_view.cpp', B + 'src/http3/header.cpp', B + 'src/ip', B + 'src/quic/event.cpp', H + 'src/codec/frame/frame.cpp', Q + 'src/crypto.cpp'], ('operator<< of each type', 'operator<< functions in bnl/base/src, bnl/http3/src/codec/frame/frame.cpp, bnl/quic/src/crypto.cpp'))
