// A connection over the model of its libraries, and its streams.
#pragma once
#include "quicmodel.h"
using QE = quic::error; using QC = quic::crypto; using Conn = quic::client::connection;
static quic::duration the_clock() { return quic::duration(W.now); }
static ip::endpoint endpoint(size_t n, bytes &b, const char *name) { b.any(n, name); return ip::endpoint(ip::address(base::buffer_view(b.b, n)), (uint16_t) sym_int(2, "port")); }
struct setup { bytes local, peer, name; quic::params params; Conn *c = nullptr;
  setup(bool v6 = false, bool given = false) { if (given) { params.max_stream_data_bidi_local = sym_int(8, "limit"); params.max_stream_data_bidi_remote = sym_int(8, "limit"); params.max_stream_data_uni = sym_int(8, "limit"); params.max_data = sym_int(8, "limit"); params.max_streams_bidi = sym_int(8, "limit"); params.max_streams_uni = sym_int(8, "limit"); params.idle_timeout = quic::milliseconds(sym_int(7, "idle timeout")); params.max_packet_size = sym_int(8, "limit"); params.ack_delay_exponent = sym_int(8, "exponent"); params.disable_migration = (uint8_t) sym_int(1, "migration"); params.max_ack_delay = quic::milliseconds(sym_int(7, "ack delay")); } ip::endpoint l = endpoint(v6 ? 16 : 4, local, "local address"), p = endpoint(v6 ? 16 : 4, peer, "peer address"); name.str("example.org"); W.now = sym_int(6, "time"); c = new Conn(ip::host("example.org"), quic::path(l, p), params, quic::clock(the_clock)); }
  ~setup() { delete c; } };
static Conn *C; static ngtcp2_conn *const N = &the_conn;
static void established() { W.handshake_done = true; W.cipher = true; the_cipher.id = 0x1301; W.hs_rv = 1; }
static void give(uint64_t id, const bytes &b, size_t from, size_t n, bool fin) { auto &s = stream_of(id); s.data.add(b.b + from, n); s.fin = s.fin || fin; }

// ---------------------------------------------------------------- C34: one stream, any history
static base::buffer chunk(stream_model &s, size_t k) { uint8_t t[64]; sym_fill(t, k, "data"); s.data.add(t, k); return base::buffer(t, k); }
static void ack(stream_model &s, size_t n, int want) { in_flight(); size_t off = s.acked; s.acked += n; int rv = N->cb.acked_stream_data_offset(N, (int64_t) s.id, off, n, N->user, nullptr); sym_check(rv == want, "an acknowledgement of sent data is accepted"); in_flight(); }
static void send_stream(stream_model &s) {
  size_t off = s.off; bool finned = s.finned; unsigned writes = W.stream_writes; bool more = s.off < s.data.n || (s.fin && !s.finned); auto r = C->send(); in_flight();
  if (!more) { sym_check(!r && r.error() == QE::idle && W.stream_writes == writes, "a connection with nothing to send is idle"); return; }
  if (W.stream_writes == writes) { sym_check(!s.opened, "pending data is offered to the transport"); sym_check(!r && r.error() == QE::idle, "a blocked stream leaves the connection idle"); return; }
  sym_check(W.stream_writes == writes + 1, "one packet at a time");
  switch (W.last_outcome) { case 0: case 1: sym_check(!r && r.error() == QE::idle && s.off == off && s.finned == finned, "nothing is sent while the transport is blocked"); break;
    case 4: sym_check(!r && r.error() == QE::ngtcp2, "a transport failure is an error"); break; default: sym_check(bool(r) && W.packet.is(r.value().data(), r.value().size()), "a packet is returned as the transport built it"); } }
