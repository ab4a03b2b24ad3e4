// bnl-quic with much of everything: many parts, large parts, many streams, large packets and events.
#define QM_BYTES 1600
#define QM_FRAMES 700
#define QM_STREAMS 72
#include "quicconn.h"
static base::buffer part(stream_model &s, size_t k, uint8_t x, size_t at) { base::buffer b(k); for (size_t i = 0; i < k; i++, s.data.n++) s.data.b[s.data.n] = b[i] = s.data.n == at ? x : (uint8_t) (s.data.n * 7 + (s.data.n >> 8) + s.id); return b; }
ENTRY(stream_many) { // one stream, many parts of many sizes, sent and acknowledged in odd portions
  uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); auto &s = stream_of(0); size_t parts = sym_param("parts", 100), size = sym_param("size", 29), total = 0; uint8_t x = (uint8_t) sym_int(1, "content"); auto len = [&](size_t i) { return i * 5 % (size + 1); }; for (size_t i = 0; i < parts; i++) total += len(i);
    bool together = flip("sent after all was added"), acks = flip("acknowledged on the way"); static const size_t A[] = {1, 5, 20, 63, 700}; size_t accept = A[pick(4, "accepted")], step = 0; W.mode = 0;
    auto some = [&](bool all) { for (;;) { bool more = s.off < s.data.n || (s.fin && !s.finned); if (!more) break; W.max_accept = accept + step++ % 3; send_stream(s); if (acks && step % 4 == 0 && s.off > s.acked) { size_t n = (s.off - s.acked) / 2 + 1; if (!(s.fin && s.finned && s.acked + n == s.data.n)) ack(s, n, 0); } if (!all && step % 5 == 0) break; } };
    for (size_t i = 0; i < parts; i++) { bool fin = i + 1 == parts; base::buffer b = part(s, len(i), x, total / 2); s.fin = fin; sym_check(bool(C->add(quic::event(quic::data{0, fin, std::move(b)}))), "data is accepted"); if (!together) some(false); }
    some(true); sym_check(s.off == total && s.finned, "everything is sent and the end is announced"); send_stream(s); while (s.acked < total) ack(s, total - s.acked < 333 ? total - s.acked : 333, 0); sym_check(N->cb.acked_stream_data_offset(N, 0, s.acked, 1, N->user, nullptr) != 0, "an acknowledgement of data that was never sent is refused"); sym_trace(s.off); sym_trace(W.stream_writes); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }
ENTRY(streams_many) { // many streams at once
  uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); size_t count = sym_param("streams", 70), n = sym_param("size", 25); uint8_t x = (uint8_t) sym_int(1, "content"); W.mode = 0; W.max_accept = 20; W.bidi_limit = count / 3;
    for (size_t i = 0; i < count; i++) { auto &s = stream_of(4 * i); s.fin = i % 2; base::buffer b = part(s, n, x, n / 2); sym_check(bool(C->add(quic::event(quic::data{4 * i, s.fin, std::move(b)}))), "data is accepted"); }
    unsigned packets = 0; auto run = [&](size_t upto) { while (C->send()) if (++packets > 4 * count) { sym_check(false, "ends"); break; } for (size_t i = 0; i < count; i++) { auto &s = stream_of(4 * i); sym_check(s.opened == (i < upto) && s.off == (i < upto ? s.data.n : 0) && s.finned == (i < upto && s.fin), "every stream the peer allows is sent completely, and no other"); } };
    run(count / 3); for (size_t i = 0; i < count / 3; i += 3) { auto &s = stream_of(4 * i); ack(s, n, 0); } W.bidi_limit = 999; run(count); in_flight();
    for (size_t i = count; i-- > 0;) { auto &s = stream_of(4 * i); if (s.acked < n) { ack(s, n / 2, 0); ack(s, n - n / 2, 0); } }
    for (size_t i = 0; i < count; i += 2) { auto &s = stream_of(4 * i); s.fin = true; sym_check(bool(C->add(quic::event(quic::data{4 * i, true, part(s, 2, x, 0)}))), "an open stream takes more"); } run(count); for (size_t i = 0; i < count; i += 2) { auto &s = stream_of(4 * i); ack(s, 2, 0); } sym_check(!C->send(), "nothing is left to send"); sym_trace(packets); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }
ENTRY(release_many) { // memory is given back with the acknowledgements, not at the end of the connection
  uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); W.mode = 0; size_t size = sym_param("size", 30), rounds = sym_param("rounds", 40), accept = pick(1, "accepted") ? 7 : 700, late = pick(2, "acknowledged behind"); uint8_t x = (uint8_t) sym_int(1, "content"); uint64_t early = 0, slack = 12;
    auto round = [&](uint64_t id, bool fin) { auto &s = stream_of(id); s.fin = fin; sym_check(bool(C->add(quic::event(quic::data{id, fin, part(s, size, x, size / 2)}))), "data is accepted"); W.max_accept = accept; for (unsigned k = 0; (s.off < s.data.n || (s.fin && !s.finned)) && k < 200; k++) send_stream(s); size_t n = s.off - s.acked; if (!fin && late < n) n -= late; if (fin && late == 1 && n > 1) { ack(s, n / 2, 0); n = s.off - s.acked; } if (n) ack(s, n, 0); };
    for (size_t i = 0; i < rounds; i++) { round(0, false); if (i == 4) early = sym_live(); } sym_check(sym_live() <= early + slack, "acknowledged data does not pile up");
    for (size_t i = 0; i < rounds; i++) { round(4 + 4 * i, true); if (i == 4) early = sym_live(); } sym_check(sym_live() <= early + slack, "finished streams do not pile up"); sym_trace(W.stream_writes); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }
static struct { uint64_t id; bool fin; bytes data; } BIG[100]; static size_t bigs, big_size;
static void big_packet() { for (size_t i = 0; i < bigs; i++) { auto &e = BIG[i]; size_t n = e.data.n; uint8_t *d = new uint8_t[n + 1]; for (size_t k = 0; k < n; k++) d[k] = e.data.b[k]; sym_check(N->cb.recv_stream_data(N, (int64_t) e.id, e.fin, 0, d, n, N->user, nullptr) == 0, "stream data is accepted"); for (size_t k = 0; k < n; k++) d[k] = 0; delete[] d; } }
ENTRY(events_many) { // full packets with large and many pieces of stream data
  uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); bytes::plain = false; bigs = sym_param("pieces", 12); big_size = sym_param("size", 1200); bytes in; in.n = 1252; for (size_t i = 0; i < in.n; i++) in.b[i] = (uint8_t) (i * 13); sym_fill(in.b + 20, 2, "packet"); W.on_read = big_packet; W.now = sym_int(6, "time"); for (size_t i = 0; i < bigs; i++) { auto &e = BIG[i]; e.id = 4 * i; e.fin = i % 3 == 0; if (i < 12) { e.id = sym_int(8, "stream"); sym_assume(e.id < (1ull << 62)); e.fin = sym_int(1, "fin") & 1; } e.data.n = i % 2 ? i : big_size; for (size_t k = 0; k < e.data.n; k++) e.data.b[k] = (uint8_t) (k * 3 + i); if (e.data.n && i < 12) sym_fill(e.data.b + e.data.n / 2, 1, "stream data"); }
    auto r = C->recv(in.view()); sym_check(bool(r) && W.in.is(in), "the transport gets the packet as it arrived"); auto &g = r.value(); size_t k = 0; while (g.next()) { auto e = g.get(); sym_check(k < bigs && bool(e), "no event without a cause"); if (!e || k >= bigs) break; auto &s = BIG[k++]; auto &v = e.value(); sym_check(v == quic::event::type::data && v.data.id == s.id && v.data.fin == s.fin && s.data.is(v.data.buffer.data(), v.data.buffer.size()), "stream data arrives as it was received"); } sym_check(k == bigs, "every event is reported once"); sym_trace(k); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }
