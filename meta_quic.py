p('C32', 'Every key is derived from its secret, with its label and length', 'Initial secrets, traffic secrets, their updates and packet protection keys are derived with the hash of the suite and the HkdfLabel of RFC 8446 7.1 for their purpose and exact output length, from the secret given, whatever its size. What is returned is what the derivation produced; any failure of the TLS library is an error and no key.',
  'inputs fault_sequences', 'all suites, secrets of sizes up to 300 and any content, every failing library call', 'There are no tests of bnl-quic; a wrong label or length gives keys that only a peer notices.', [Q + 'src/crypto.cpp', Q + 'src/crypto/boringssl.cpp'], ('HkdfLabel encoding, expand and extract wrappers', Q + 'src/crypto.cpp hkdf_expand_label, initial_secret, update_secret, packet_protection_key'))
p('C33', 'Packet protection uses the right cipher with the arguments given', 'Sealing, opening and header masks call exactly the cipher of the suite, with key, nonce, text, associated data, sample and full tag as given, and write nothing outside the destination. A header mask is AES of the sample or the ChaCha20 key stream for the counter and nonce in it; failures are errors and every cipher context is released.',
  'inputs fault_sequences', 'all suites, all short texts, all samples, every failing library call', 'There are no tests of bnl-quic; a swapped argument or leaked context is invisible without a peer.', [Q + 'src/crypto/boringssl.cpp'], ('aead_ctx, seal, open, hp_mask', Q + 'src/crypto/boringssl.cpp'))
p('C34', 'A stream sends its bytes once, in order, and keeps them until acknowledged', 'Whatever the sizes and order of the data added, and however the transport accepts, blocks or fails, a stream offers exactly its bytes in order, announces its end exactly once with or after the last byte, and then has nothing to send. Bytes handed to the transport stay in place, unchanged, until they are acknowledged, and acknowledged bytes and finished streams do not pile up in memory; an acknowledgement of unsent data is refused.',
  'histories inputs fault_sequences', 'short histories of add, end, send with every outcome, acknowledge, then drained; all contents', 'There are no tests of bnl-quic; a retransmission from released memory needs a lost packet.', [Q + 'src/client/stream.cpp', Q + 'include/bnl/quic/client/stream.hpp', Q + 'src/client/ngtcp2/connection.cpp'], ('buffer queue, in-flight queue, offsets', Q + 'src/client/stream.cpp send(), ack()'), ('packet and stream write', Q + 'src/client/ngtcp2/connection.cpp write_stream'))
p('C35', 'The handshake connects TLS and transport without loss or mix-up', 'The transport and TLS are set up with the parameters, path, clock and host given. Handshake data and secrets of TLS reach the transport, and data of the transport reaches TLS, each once, unchanged and at its encryption level and direction; keys always belong to the latest secrets. Completion is reported once, with the peer\'s parameters; a failure on either side fails the operation; data in flight stays in place until acknowledged.',
  'histories inputs fault_sequences', 'connection creation; short histories of handshake events with every behaviour of TLS and every failing library call', 'There are no tests of bnl-quic; TLS decides at run time which levels and orders occur.', [Q + 'src/client/handshake.cpp', Q + 'src/client/handshake/boringssl.cpp', Q + 'src/client/connection.cpp', Q + 'src/client/ngtcp2/connection.cpp'], ('level mapping and callbacks of both libraries', Q + 'src/client/handshake/boringssl.cpp'), ('key installation, crypto buffers', Q + 'src/client/handshake.cpp'))
p('C36', 'Events and packets pass a connection completely and in order', 'Whatever frames a packet holds, the application sees each stream chunk, reset and refused packet exactly once, in order and unchanged, however many events it takes at a time. Sending yields the transport\'s own packets first, then stream data by stream once the handshake is done; a blocked stream does not hold up another, and "idle" means nothing can be sent.',
  'histories inputs fault_sequences', 'packets with short sequences of frames and any values; two and three streams and every outcome of sends', 'There are no tests of bnl-quic.', [Q + 'src/client/connection.cpp', Q + 'src/client/ngtcp2/connection.cpp', B + 'src/quic/event.cpp'], ('event buffer and generator', Q + 'src/client/connection.cpp recv, generator'), ('order of sending', Q + 'src/client/connection.cpp send'))
p('C37', 'The transport gets the services it asks for', 'Timers are converted between nanoseconds and microseconds and fire when due; identifiers, tokens and random bytes fill exactly the memory given; the preferred address of the path\'s family is chosen; packets are protected with the suite of their level; what is not implemented or fails is reported as a failure to the transport.',
  'inputs fault_sequences', 'all times, addresses, sizes and suites within the bounds, every failing library call', 'There are no tests of bnl-quic.', [Q + 'src/client/ngtcp2/connection.cpp', Q + 'src/client/connection.cpp'], ('callbacks registered with ngtcp2', Q + 'src/client/ngtcp2/connection.cpp'))
