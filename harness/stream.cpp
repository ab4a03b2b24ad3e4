// Streams: header and body codecs, request senders and receivers, control streams.
#include "harness.h"
#include "message.h"
#include <bnl/http3/client/stream/control.hpp>
#include <bnl/http3/client/stream/request.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/server/stream/control.hpp>
#include <bnl/http3/server/stream/request.hpp>
#include <new>
#include <utility>
using E = h3::error; using Ev = h3::event;
namespace C = h3::client::stream; namespace S = h3::server::stream;
static base::string_view sv(const text &t) { return base::string_view((const char *) t.b, t.n); }
// one of a few header shapes: static entry, static name, literal name; contents symbolic
static void make_header(text &n, text &v, size_t kinds = 3) {
  switch (pick(kinds, "header kind")) {
    case 0: put(n, ":method"); put(v, "GET"); break;
    case 1: put(n, ":path"); v.n = 2; sym_fill(v.b, 2, "value"); for (size_t i = 0; i < 2; i++) sym_assume(rfc_huffman[v.b[i]].len >= 10); break;
    case 2: n.n = 1; sym_fill(n.b, 1, "name"); sym_assume(n.b[0] >= 'a' && n.b[0] <= 'z'); v.n = 0; break;
    default: n.n = 2; sym_fill(n.b, 2, "name"); for (size_t i = 0; i < 2; i++) sym_assume(!(n.b[i] >= 'A' && n.b[i] <= 'Z') && rfc_huffman[n.b[i]].len >= 10); v.n = 24; for (size_t i = 0; i < 24; i++) v.b[i] = 0xf0; sym_fill(v.b, 1, "value"); break; } }
static void put_wire(uint8_t *d, size_t &n, const base::buffer &b) { for (size_t i = 0; i < b.size(); i++) d[n++] = b[i]; }

// ---------------------------------------------------------------- header blocks
static uint64_t any_id() { uint64_t id = sym_int(8, "stream id"); sym_assume(id < 1ull << 62); return id; }
ENTRY(headers_codec) {
  huff_init(H); uint64_t l = sym_live(); {
    h3::headers::encoder e; text n[3], v[3]; size_t k = pick(sym_param("headers", 2), "headers"), bad = pick(k + 1, "bad header"); uint8_t w[160]; size_t total = 0;
    sym_check(!e.finished() && !e.encode() && e.encode().error() == E::idle, "nothing to send before the block is closed");
    for (size_t i = 0; i <= k; i++) { if (i == bad) { auto r = e.add(h3::header_view("Upper", "x")); sym_check(!r && r.error() == E::malformed_header, "an upper-case header is refused"); sym_reach("refused"); } if (i == k) break; make_header(n[i], v[i]); auto r = e.add(h3::header_view(sv(n[i]), sv(v[i]))); sym_check(bool(r), "a header is accepted"); }
    auto f = e.fin(); if (!k) { sym_check(!f && f.error() == E::internal, "an empty block cannot be closed"); sym_check(!e.encode() && !e.finished(), "and nothing is sent for it"); sym_check(bool(e.add(h3::header_view("a", "b"))) && bool(e.fin()), "a block refused as empty can still be filled"); sym_check(bool(e.encode()) && bool(e.encode()) && e.finished(), "and sent"); sym_reach("empty"); return; }
    sym_check(bool(f), "a block with headers can be closed"); { auto x = e.fin(), y = e.add(h3::header_view("a", "b")); sym_check(!x && !y && x.error() == E::internal && y.error() == E::internal, "a closed block does not change"); }
    size_t pieces = 0; while (!e.finished()) { auto b = e.encode(); sym_check(bool(b) && b.value().size() > 0, "a closed block is sent piece by piece"); if (!b) return; put_wire(w, total, b.value()); sym_check(++pieces <= 8, "in finitely many pieces"); }
    { auto x = e.encode(); sym_check(!x && x.error() == E::internal, "a block is sent once"); }
    cur c{w, total}; uint64_t t, len; sym_check(ref_varint(c, t) == OK && t == 1 && ref_varint(c, len) == OK && len == c.left(), "one HEADERS frame whose length covers the block");
    for (size_t i = 0; i < total; i++) sym_trace(w[i]);
    h3::headers::decoder d; base::buffers q; size_t cut = pick(total, "cut"), got = 0; sym_check(!d.started() && !d.finished(), "a new decoder has seen nothing");
    for (unsigned p = 0; p < 2; p++) { q.push(p ? base::buffer(w + cut, total - cut) : base::buffer(w, cut)); if (p) { uint8_t extra[1] = {0}; q.push(base::buffer(extra, 1)); }
      while (!d.finished()) { auto r = d.decode(q); if (!r) { sym_check(r.error() == E::incomplete, "a partial block is incomplete"); break; } sym_check(got < k && r.value().name().size() == n[got].n && r.value().value().size() == v[got].n && sym_eqmem(r.value().name().data(), n[got].b, n[got].n) && sym_eqmem(r.value().value().data(), v[got].b, v[got].n), "headers come back in order and unchanged"); got++; sym_check(d.started() && d.finished() == (got == k), "the block ends with its last header"); } }
    sym_check(got == k && d.finished() && q.size() == 1, "the whole block is read and nothing after it"); { auto x = d.decode(q); sym_check(!x && x.error() == E::internal && q.size() == 1, "a finished decoder reads nothing"); } sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }

// one header whose block is around a given size
ENTRY(headers_long) {
  uint64_t l = sym_live(); {
    size_t vn = sym_param("value", 60); auto *v = new uint8_t[vn]; for (size_t i = 0; i < vn; i++) v[i] = (uint8_t) (0xf0 + i % 11); v[vn / 2] = (uint8_t) sym_int(1, "value"); sym_assume(v[vn / 2] >= 0xf0); bool two = flip("a second header"); h3::headers::encoder e; sym_check(bool(e.add(h3::header_view(base::string_view(":path"), base::string_view((const char *) v, vn)))), "a header is accepted"); if (two) sym_check(bool(e.add(h3::header_view("a", ""))), "a header is accepted"); sym_check(bool(e.fin()), "closed");
    base::buffers q; size_t total = 0; while (!e.finished()) { auto b = e.encode(); sym_check(bool(b), "a closed block is sent"); if (!b) return; total += b.value().size(); q.push(std::move(b.value())); }
    uint8_t x[12]; size_t k = 0, need = ref_prefix_put(x, 1, 4, 0x50) + ref_prefix_put(x, vn, 7, 0) + vn + 2 + (two ? 3 : 0); x[k++] = 1; k += ref_varint_put(x + k, need); sym_check(total == k + need, "one HEADERS frame with a shortest length"); for (size_t i = 0; i < k && i < total; i++) { sym_check(q[i] == x[i], "whose length covers the block"); sym_trace(q[i]); }
    h3::headers::decoder d; base::buffers r; size_t cut = pick_cut(total), at = 0, got = 0; const size_t stops[2] = {cut, total}; for (size_t s : stops) { size_t n = s - at; at = s; if (n) r.push(q.slice(n)); while (!d.finished()) { auto h = d.decode(r); if (!h) { sym_check(h.error() == E::incomplete, "a partial block is incomplete"); break; } sym_check(got < (two ? 2 : 1), "no more headers than sent"); if (got == 0) sym_check(h.value().name() == base::string_view(":path") && h.value().value().size() == vn && sym_eqmem(h.value().value().data(), v, vn), "the header comes back unchanged"); else sym_check(h.value().name() == base::string_view("a") && h.value().value().empty(), "and the second one"); got++; } sym_check(d.finished() == (got == (two ? 2 : 1)), "the block ends with its last header"); }
    sym_check(d.finished() && r.empty(), "the whole block is read"); delete[] v; sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }

ENTRY(foreign_frame) { // another frame where headers or body are expected
  uint64_t l = sym_live(); {
    uint64_t type = sym_int(8, "type"); size_t form = sym_param("form", 0), k = (size_t) 1 << form, n = 0; sym_assume(type < (k == 8 ? 1ULL << 62 : 1ULL << (8 * k - 2))); uint8_t a[16]; for (size_t i = 0; i < k; i++) a[n++] = (uint8_t) (type >> (8 * (k - 1 - i))); a[0] |= (uint8_t) (form << 6); sym_fill(a + n, 3, "rest"); n += 3; bool body = sym_param("body", 0);
    size_t cut = pick(n, "cut"); base::buffers q; q.push(base::buffer(a, cut)); q.push(base::buffer(a + cut, n - cut)); h3::headers::decoder hd; h3::body::decoder bd; if (!known(type)) return; bool own = type == (body ? 0 : 1); if (own) { if (!body && a[k] == 0) { auto r = hd.decode(q); sym_check(!r && r.error() == E::malformed_frame, "a frame without headers is malformed"); sym_reach("empty frame"); } return; }
    if (body) { auto r = bd.decode(q); sym_check(!r, "another frame is no body"); if (r) return; sym_check(r.error() == E::delegate, "another frame is left to others"); sym_check(!bd.in_progress(), "nothing was started"); } else { auto r = hd.decode(q); sym_check(!r, "another frame has no headers"); if (r) return; sym_check(r.error() == E::delegate, "another frame is left to others"); sym_check(!hd.started() && !hd.finished(), "nothing was started"); }
    sym_check(q.size() == n, "nothing was consumed"); for (size_t i = 0; i < n; i++) { sym_check(q[i] == a[i], "nothing was consumed"); sym_trace(q[i]); } sym_reach("delegated"); }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- bodies
static const size_t PARTS[] = {0, 1, 3, 21, 64};
ENTRY(body_codec) { // any interleaving of add, fin and encode
  uint64_t l = sym_live(); {
    h3::body::encoder e; uint8_t all[256]; size_t n = 0; uint8_t w[320]; size_t total = 0; bool fin = false; size_t depth = sym_param("depth", 4), sizes = sym_param("sizes", 2);
    auto send = [&] { if (e.finished()) { auto x = e.encode(); sym_check(!x && x.error() == E::internal, "nothing follows the end of a body"); return false; } auto r = e.encode(); if (!r) { sym_check(r.error() == E::idle, "a body with nothing to send is idle"); return false; } put_wire(w, total, r.value()); return true; };
    for (size_t i = 0; i < depth; i++) switch (pick(2, "operation")) {
      case 0: { size_t k = PARTS[pick(sizes, "part")]; uint8_t t[64]; sym_fill(t, k, "part"); auto r = e.add(base::buffer(t, k)); sym_check(bool(r) == !fin && (r || r.error() == E::internal), "a body accepts data until it is closed"); if (!fin) for (size_t j = 0; j < k; j++) all[n++] = t[j]; break; }
      case 1: send(); break;
      default: { bool sent = e.finished(); auto r = e.fin(); if (!fin) sym_check(bool(r), "an open body can be closed"); else if (sent) sym_check(!r && r.error() == E::internal, "a body ends once"); fin = true; break; } }
    if (!fin) { sym_check(!e.finished(), "an open body is not finished"); e.fin(); } size_t steps = 0; while (send()) sym_check(++steps <= 2 * depth + 1, "a closed body drains in finitely many pieces"); sym_check(e.finished(), "a closed and drained body is finished");
    cur c{w, total}; size_t m = 0; while (c.left()) { uint64_t t, len; sym_check(ref_varint(c, t) == OK && t == 0 && ref_varint(c, len) == OK && len <= c.left() && m + len <= n, "a body is a sequence of DATA frames"); size_t k = (size_t) sym_concrete(len); sym_check(sym_eqmem(w + c.i, all + m, k), "DATA frames carry the body in order"); m += k; c.i += k; } sym_check(m == n, "DATA frames carry the whole body");
    // and back, arriving in pieces
    h3::body::decoder d; base::buffers q; size_t c1 = pick(total, "cut"), at = 0, got = 0; const size_t stops[2] = {c1, total}; unsigned idle = 0;
    for (size_t s : stops) { q.push(base::buffer(w + at, s - at)); at = s; for (unsigned k = 0; ; k++) { auto r = d.decode(q); if (!r) { sym_check(r.error() == E::incomplete, "a partial body is incomplete"); break; } sym_check(got + r.value().size() <= n && sym_eqmem(r.value().data(), all + got, r.value().size()), "body bytes come back in order and unchanged"); got += r.value().size(); sym_check(k <= 2 * depth, "progress"); } }
    sym_check(got == n && q.empty() && !d.in_progress(), "the whole body is read"); sym_trace(total); sym_trace(got); (void) idle; sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }

ENTRY(body_long) { // one or two large parts
  uint64_t l = sym_live(); {
    size_t m = sym_param("size", 64); bool two = flip("a second part"); auto at_ = [](size_t i) { return (uint8_t) (i * 3 + (i >> 8)); }; base::buffer b(m); for (size_t i = 0; i < m; i++) b[i] = at_(i); uint8_t x = (uint8_t) sym_int(1, "body"); b[m - 1] = x; h3::body::encoder e; sym_check(bool(e.add(std::move(b))), "accepted"); if (two) { uint8_t y[3] = {1, 2, 3}; sym_check(bool(e.add(base::buffer(y, 3))), "accepted"); } sym_check(bool(e.fin()), "closed");
    base::buffers q; size_t total = 0; while (!e.finished()) { auto r = e.encode(); sym_check(bool(r), "a closed body drains"); if (!r) return; total += r.value().size(); q.push(std::move(r.value())); }
    uint8_t h[10]; h[0] = 0; size_t k = 1 + ref_varint_put(h + 1, m); sym_check(total == k + m + (two ? 5 : 0), "DATA frames with shortest lengths"); for (size_t i = 0; i < k && i < total; i++) { sym_check(q[i] == h[i], "whose length covers the part"); sym_trace(q[i]); }
    h3::body::decoder d; base::buffers r; size_t cut = pick_cut(total), at = 0, got = 0, n = m + (two ? 3 : 0); const size_t stops[2] = {cut, total}; for (size_t s : stops) { if (s - at) r.push(q.slice(s - at)); at = s; for (;;) { auto o = d.decode(r); if (!o) { sym_check(o.error() == E::incomplete, "a partial body is incomplete"); break; } for (size_t i = 0; i < o.value().size(); i++, got++) sym_check(got < n && o.value()[i] == (got >= m ? (uint8_t) (got - m + 1) : got == m - 1 ? x : at_(got)), "body bytes come back in order and unchanged"); } }
    sym_check(got == n && r.empty() && !d.in_progress(), "the whole body is read"); sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(body_partial) { // a DATA frame of any size, with only some of its payload
  uint64_t l = sym_live(); {
    uint64_t len = sym_int(8, "size"); size_t form = sym_param("form", 3), k = (size_t) 1 << form, n = 0, m = sym_param("n", 3); sym_assume(len < (k == 8 ? 1ULL << 62 : 1ULL << (8 * k - 2))); uint8_t a[32]; a[n++] = 0; for (size_t i = 0; i < k; i++) a[n++] = (uint8_t) (len >> (8 * (k - 1 - i))); a[1] |= (uint8_t) (form << 6); size_t off = n; sym_fill(a + n, m, "payload"); n += m; bool whole = len <= m; size_t expect = whole ? (size_t) sym_concrete(len) : m;
    h3::body::decoder d; base::buffers q; size_t cut = pick(n, "cut"), at = 0, got = 0; const size_t stops[2] = {cut, n}; bool done = false;
    for (size_t s : stops) { q.push(base::buffer(a + at, s - at)); at = s; for (unsigned i = 0; !done; i++) { sym_check(i < 6, "progress"); auto r = d.decode(q); if (!r) { sym_check(r.error() == E::incomplete, "a partial frame is incomplete"); sym_check(d.in_progress() == (at >= off), "a frame is in progress until all of it is there"); break; } size_t b = r.value().size(); sym_check(got + b <= expect && sym_eqmem(r.value().data(), a + off + got, b), "payload bytes come back in order and unchanged"); got += b; sym_trace(b); if (whole && got == expect) { done = true; sym_check(!d.in_progress(), "a whole frame is not in progress"); sym_reach("whole"); } } }
    sym_check(got == expect && (whole ? done : d.in_progress()), "all of the payload that is there is read"); if (whole) sym_check(q.size() == n - off - expect, "and nothing after the frame"); else { sym_check(q.empty(), "and nothing is left"); sym_reach("partial"); } }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- request senders: any order of calls
ENTRY(sender_ops) {
  huff_init(H); uint64_t l = sym_live(); {
    uint64_t id = any_id(); bool server = sym_param("server", 0); uint8_t raw[sizeof(C::request::sender) > sizeof(S::request::sender) ? sizeof(C::request::sender) : sizeof(S::request::sender)]; (void) raw;
    h3::endpoint::stream::request::sender s(id); h3::endpoint::stream::request::sender::handle h(&s); sym_check(h.id() == id, "a handle names its stream");
    text n[4], v[4]; size_t k = 0, depth = sym_param("depth", 4); bool started = false, fin = false, closed = false; uint8_t body[128]; size_t bn = 0, parts = 0; uint8_t w[320]; size_t total = 0;
    auto send = [&]() -> bool { auto r = s.send(); if (closed) { sym_check(!r, "nothing follows FIN"); return false; } if (!r) { sym_check(r.error() == E::idle, "a sender with nothing to send is idle"); sym_check(!(started && fin), "a closed message is never idle before FIN"); return false; }
      sym_check(r.value() == quic::event::type::data && r.value().data.id == id, "output is data of this stream"); put_wire(w, total, r.value().data.buffer); if (r.value().data.fin) { closed = true; sym_check(started && fin, "FIN only when the message is closed"); } sym_check(s.finished() == closed, "a sender is finished exactly when FIN went out"); return true; };
    for (size_t i = 0; i < depth; i++) switch (i == 0 && sym_param("op0", 9) < 5 ? sym_param("op0", 9) : pick(4, "operation")) {
      case 0: { if (k == 2) break; make_header(n[k], v[k], 2); auto r = h.header(h3::header_view(sv(n[k]), sv(v[k]))); sym_check(bool(r) == !started, "headers are accepted until the block is closed"); if (!r) sym_check(r.error() == E::internal, "a call out of order is refused as one"); if (!started) k++; sym_note("header"); break; }
      case 1: { auto r = h.start(); sym_check(bool(r) == (!started && k > 0), "a block with headers is closed once"); if (!r) sym_check(r.error() == E::internal, "a call out of order is refused as one"); if (r) started = true; sym_note("start"); break; }
      case 2: { size_t m = PARTS[pick(1, "part")]; uint8_t t[8]; sym_fill(t, m, "part"); auto r = h.body(base::buffer(t, m)); sym_check(bool(r) == !fin && (r || r.error() == E::internal), "body is accepted until closed"); if (!fin) { for (size_t j = 0; j < m; j++) body[bn++] = t[j]; parts++; } sym_note("body"); break; }
      case 3: { auto r = h.fin(); if (!fin) sym_check(bool(r), "an open message can be closed"); fin = true; sym_note("fin"); break; }
      default: sym_note("send"); send(); break; }
    sym_check(!s.finished() || closed, "not finished before FIN");
    if (!k) { n[0].n = v[0].n = 0; put(n[0], ":method"); put(v[0], "GET"); sym_check(bool(h.header(h3::header_view(sv(n[0]), sv(v[0])))), "a header"); k = 1; } if (!started) { sym_check(bool(h.start()), "start"); started = true; } if (!fin) { sym_check(bool(h.fin()), "fin"); fin = true; }
    size_t steps = 0; while (!closed && send()) sym_check(++steps <= 12, "a closed message drains in finitely many pieces"); sym_check(closed && s.finished(), "FIN goes out"); send();
    static want q; q = want(); read_stream(q, w, total, true, true); sym_check(q.out == DONE && q.headers == k && q.n == bn && sym_eqmem(q.body, body, bn), "the bytes sent are the message: one header block and the body");
    for (size_t i = 0; i < k && i < q.headers; i++) sym_check(q.name[i].n == n[i].n && q.value[i].n == v[i].n && sym_eqmem(q.name[i].b, n[i].b, n[i].n) && sym_eqmem(q.value[i].b, v[i].b, v[i].n), "with its headers in order");
    for (size_t i = 0; i < total; i++) sym_trace(w[i]); sym_reach("end"); (void) server; }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- request receivers
template <class R> static void feed(R &r, seen &o, const uint8_t *a, size_t n, bool fin, size_t cuts) {
  size_t at = 0; sym_check(bool(r.start()), "started"); bool stop = false; size_t left = cuts; bool separate = fin && flip("FIN on its own");
  for (bool last = false; !last && !stop;) {
    size_t k = left ? pick_cut(n - at, "piece") : n - at; if (left) left--; else last = !separate; if (k == n - at && !separate) { last = true; }
    bool bare = false; if (separate && k == 0 && at == n) { last = bare = true; } 
    auto s = r.recv(quic::data{o.id, fin && last, base::buffer(a + at, k)}); at += k; sym_check(bool(s), "data before FIN is accepted"); (void) bare;
    for (unsigned step = 0;; step++) { sym_check(step < 24, "processing makes progress"); auto e = r.process(); if (!e) { if (e.error() == E::incomplete) break; o.out = ERR; o.err = e.error(); stop = true; break; } o.on(e.value()); if (o.finished) { stop = true; break; } } }
  sym_trace(o.out); sym_check(r.finished() == (o.out == DONE), "finished() agrees with the events"); if (fin && !stop) sym_check(!r.recv(quic::data{o.id, true, base::buffer()}), "nothing is accepted after FIN"); }
static void receive(bool server, const want &w, const uint8_t *a, size_t n, bool fin, size_t cuts) {
  uint64_t id = any_id(); seen o{w, id}; if (server) { S::request::receiver r(id); feed(r, o, a, n, fin, cuts); o.verdict(); } else { C::request::receiver r(id); feed(r, o, a, n, fin, cuts); o.verdict(); } }
static void put_unknown(uint8_t *a, size_t &n) { size_t k = pick(2, "unknown frame"); if (!k) return; uint64_t t = sym_int(1, "unknown type"); sym_assume(t < 64 && !known(t)); a[n++] = (uint8_t) t; a[n++] = (uint8_t) (k - 1); sym_fill(a + n, k - 1, "unknown payload"); n += k - 1; }
ENTRY(receive_valid) { // a well-formed message, cut anywhere
  huff_init(H); uint64_t l = sym_live(); {
    uint8_t a[320]; size_t n = 0; size_t unk = sym_param("unknown", 1); if (unk & 1) put_unknown(a, n); uint8_t b[64]; size_t k = 2, lines = sym_param("lines", 1); b[0] = b[1] = 0;
    for (size_t i = 0; i < lines; i++) switch (i == 0 ? sym_param("kind", 1) : pick(2, "line")) { case 0: b[k++] = 0xd1; break; case 1: b[k++] = 0x51; b[k++] = 1; sym_fill(b + k, 1, "value"); k++; break; default: b[k++] = 0x21; sym_fill(b + k, 1, "name"); sym_assume(!(b[k] >= 'A' && b[k] <= 'Z')); k++; b[k++] = 0; break; }
    a[n++] = 1; if (sym_param("long", 0)) a[n++] = 0x40; a[n++] = (uint8_t) k; for (size_t i = 0; i < k; i++) a[n++] = b[i]; if (unk & 2) put_unknown(a, n);
    for (size_t i = 0; i < sym_param("data", 1); i++) { size_t m = PARTS[pick(sym_param("parts", 1), "part")]; a[n++] = 0; if (sym_param("long", 0) && m < 64) a[n++] = 0x40; if (m < 64) a[n++] = (uint8_t) m; else n += ref_varint_put(a + n, m); sym_fill(a + n, m, "body"); n += m; if (unk & 4) put_unknown(a, n); }
    static want w; w = want(); read_stream(w, a, n, true, true); sym_check(w.out == DONE, "the message is well formed"); receive(flip("server"), w, a, n, true, sym_param("cuts", 1)); }
  sym_check(sym_live() == l, "no block leaks"); }
// a message with long header values and body parts, lengths in any integer width
static size_t put_wide(uint8_t *d, uint64_t v, unsigned width) { size_t k = (size_t) 1 << width; for (size_t i = 0; i < k; i++) d[i] = (uint8_t) (v >> (8 * (k - 1 - i))); d[0] |= (uint8_t) (width << 6); return k; }
ENTRY(receive_long) {
  huff_init(H); uint64_t l = sym_live(); {
    static uint8_t a[1400], b[700]; size_t n = 0, k = 0, vn = sym_param("value", 130), bn = sym_param("body", 130), parts = sym_param("parts", 1); unsigned vary = (unsigned) sym_param("widths", 0); b[k++] = 0; b[k++] = 0; b[k++] = 0x51; k += ref_prefix_put(b + k, vn, 7, 0); size_t at = k; for (size_t i = 0; i < vn; i++) b[k++] = (uint8_t) (i * 5 + 1); if (vn) { b[at] = (uint8_t) sym_int(1, "value"); b[k - 1] = (uint8_t) sym_int(1, "value"); } b[k++] = 0xd1;
    auto width = [&](size_t m) { unsigned s = m < 64 ? 0 : m < 16384 ? 1 : 2; return vary ? s + (unsigned) pick(3 - s, "width") : s; };
    n += put_wide(a + n, 1, vary ? (unsigned) pick(1, "width of the type") : 0); n += put_wide(a + n, k, width(k)); for (size_t i = 0; i < k; i++) a[n++] = b[i];
    for (size_t p = 0; p < parts; p++) { n += put_wide(a + n, 0, 0); n += put_wide(a + n, bn, width(bn)); for (size_t i = 0; i < bn; i++) a[n + i] = (uint8_t) (i * 7); if (bn) { a[n] = (uint8_t) sym_int(1, "body"); a[n + bn - 1] = (uint8_t) sym_int(1, "body"); } n += bn; }
    static want w; w = want(); read_stream(w, a, n, true, true); sym_check(w.out == DONE, "the message is well formed"); receive(flip("server"), w, a, n, true, sym_param("cuts", 1)); }
  sym_check(sym_live() == l, "no block leaks"); }
// a message of many headers and body parts, from a sender to a receiver, delivered in pieces of one size
template <class R> static void many(R &r, base::buffers &q, size_t total, size_t piece, uint64_t id, size_t headers, size_t body, bool fin_alone, size_t xh, uint8_t hx, size_t xb, uint8_t bx);
static uint8_t many_value(size_t h, size_t i) { return (uint8_t) (0xf0 + (h + i) % 15); } static size_t many_len(size_t h) { return h * 7 % 40; } static uint8_t many_body(size_t i) { return (uint8_t) (i * 11 + (i >> 8)); }
ENTRY(message_many) {
  huff_init(H); uint64_t l = sym_live(); {
    size_t headers = sym_param("headers", 100), parts = sym_param("parts", 300), id = sym_param("id", 1200), xh = headers / 2 | 1, xb = 0, body = 0, m = 0; auto plen = [&](size_t i) { return i % 37; }; for (size_t i = 0; i < parts; i++) body += plen(i); xb = body / 2; uint8_t hx = (uint8_t) sym_int(1, "value"), bx = (uint8_t) sym_int(1, "body"); sym_assume(hx >= 0xf0);
    bool early = flip("sent while it is filled"); h3::endpoint::stream::request::sender s(id); h3::endpoint::stream::request::sender::handle h(&s); base::buffers q; size_t total = 0; bool fin = false;
    auto drain = [&] { for (;;) { auto r = s.send(); if (!r) { sym_check(r.error() == E::idle || (fin && r.error() == E::internal), "a sender runs dry"); break; } sym_check(!fin && r.value().data.id == id, "nothing follows FIN"); fin = r.value().data.fin; total += r.value().data.buffer.size(); q.push(std::move(r.value().data.buffer)); } };
    for (size_t i = 0; i < headers; i++) { uint8_t v[40]; for (size_t k = 0; k < many_len(i); k++) v[k] = many_value(i, k); if (i == xh) v[many_len(i) / 2] = hx; const char nm[] = {'x', (char) ('a' + i % 26), (char) ('a' + i / 26 % 26)}; sym_check(bool(h.header(h3::header_view(base::string_view(nm, i % 3 + 1), base::string_view((const char *) v, many_len(i))))), "a header is accepted"); } sym_check(bool(h.start()), "started"); if (early) drain();
    for (size_t i = 0; i < parts; i++) { base::buffer b(plen(i)); for (size_t k = 0; k < plen(i); k++, m++) b[k] = m == xb ? bx : many_body(m); sym_check(bool(h.body(std::move(b))), "body is accepted"); if (early && i % 50 == 0) drain(); } sym_check(bool(h.fin()), "closed"); drain(); sym_check(fin && s.finished(), "all of it is sent");
    size_t piece = sym_param("piece", 0); if (!piece) piece = total; sym_trace(total); bool alone = flip("FIN on its own"); if (flip("server")) { S::request::receiver r(id); many(r, q, total, piece, id, headers, body, alone, xh, hx, xb, bx); } else { C::request::receiver r(id); many(r, q, total, piece, id, headers, body, alone, xh, hx, xb, bx); } sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }
template <class R> static void many(R &r, base::buffers &q, size_t total, size_t piece, uint64_t id, size_t headers, size_t body, bool alone, size_t xh, uint8_t hx, size_t xb, uint8_t bx) {
  size_t at = 0, got = 0, n = 0; bool block = false, end = false, done = false; sym_check(bool(r.start()), "started");
  while (at < total || (alone && !done)) { size_t k = total - at < piece ? total - at : piece; bool fin = at + k == total && (!alone || !k); sym_check(!(alone && done), "finished only after FIN"); base::buffer b = k ? q.slice(k) : base::buffer(); at += k; sym_check(bool(r.recv(quic::data{id, fin, std::move(b)})), "data is accepted");
    for (;;) { auto e = r.process(); if (!e) { sym_check(e.error() == E::incomplete, "a message is no error"); break; } auto &v = e.value(); if (v == Ev::type::header) { sym_check(!block && got < headers && v.header.id == id, "headers come first"); auto &hd = v.header.header; const char nm[] = {'x', (char) ('a' + got % 26), (char) ('a' + got / 26 % 26)}; sym_check(hd.name() == base::string_view(nm, got % 3 + 1) && hd.value().size() == many_len(got), "in order"); for (size_t i = 0; i < hd.value().size() && i < many_len(got); i++) sym_check((uint8_t) hd.value()[i] == (got == xh && i == many_len(got) / 2 ? hx : many_value(got, i)), "and unchanged"); got++; block = v.header.fin; sym_check(block == (got == headers), "the last header is marked"); }
      else if (v == Ev::type::body) { sym_check(block && !end && v.body.id == id && n + v.body.buffer.size() <= body, "then the body"); for (size_t i = 0; i < v.body.buffer.size(); i++, n++) sym_check(v.body.buffer[i] == (n == xb ? bx : many_body(n)), "in order and unchanged"); end = v.body.fin; sym_check(!end || n == body, "to its end"); }
      else { sym_check(v == Ev::type::finished && block && n == body, "a message finishes complete"); done = true; break; } } if (fin) break; }
  sym_check(done && r.finished(), "and it finishes"); sym_trace(n); }
ENTRY(receive_any) { // arbitrary bytes
  huff_init(H); uint64_t l = sym_live(); {
    uint8_t a[64]; size_t n = 0, m = sym_param("n", 3); size_t mode = sym_param("mode", 0); 
    if (mode == 1) { const uint8_t h[] = {1, 3, 0, 0, 0xd1}; for (uint8_t x : h) a[n++] = x; } // a complete header block first
    auto size = [&](const char *what) { size_t form = sym_param("form", 0), k = (size_t) 1 << form; sym_fill(a + n, k, what); sym_assume(a[n] >> 6 == form); n += k; };
    if (mode == 2) { a[n++] = 1; size("block size"); a[n++] = 0; a[n++] = 0; } // a header block of any size
    if (mode == 3) { const uint8_t h[] = {1, 3, 0, 0, 0xd1, 0}; for (uint8_t x : h) a[n++] = x; size("part size"); } // a DATA frame of any size
    if (m) { sym_fill(a + n, m, "bytes"); uint64_t f = sym_param("first", 999); if (f < 256) sym_assume(a[n] == f); else if (f == 256) { for (uint64_t k : TYPES) sym_assume(a[n] != k); } if (mode == 2) sym_assume(a[n] < 0x80 || a[n] == 0xd1 || a[n] == 0xff); }
    n += m; bool fin = flip("FIN"), server = flip("server"); static want w; w = want(); read_stream(w, a, n, fin, server); receive(server, w, a, n, fin, sym_param("cuts", 1)); }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- handles
ENTRY(handles) { // any history of senders and handles
  uint64_t l = sym_live(); {
    using Sn = h3::endpoint::stream::request::sender; using Hn = Sn::handle; struct box { Sn *p = nullptr; ~box() { delete p; } }; 
    uint64_t sid[2] = {any_id(), any_id()}; Sn *s[2] = {new Sn(sid[0]), new Sn(sid[1])}; Hn *h[3] = {nullptr, nullptr, nullptr}; int link[3] = {-1, -1, -1}; uint64_t hid[3] = {}; size_t depth = sym_param("depth", 3);
    auto drop = [&](int x, int except) { for (int i = 0; i < 3; i++) if (i != except && link[i] == x) link[i] = -1; };
    for (size_t d = 0; d < depth; d++) {
      size_t op = d == 0 ? sym_param("op0", 0) : pick(6, "operation");
      switch (op) {
        case 0: { size_t i = pick(2, "handle"), x = pick(1, "sender"); if (!s[x] || h[i]) break; sym_note("new handle"); drop((int) x, -1); h[i] = new Hn(s[x]); link[i] = (int) x; hid[i] = sid[x]; break; }
        case 1: { size_t i = pick(2, "handle"), j = pick(2, "to"); if (!h[i] || h[j]) break; sym_note("move construct handle"); h[j] = new Hn(std::move(*h[i])); link[j] = link[i]; hid[j] = hid[i]; link[i] = -1; hid[i] = UINT64_MAX; break; }
        case 2: { size_t i = pick(2, "handle"), j = pick(2, "to"); if (!h[i] || !h[j] || i == j) break; sym_note("move assign handle"); *h[j] = std::move(*h[i]); link[j] = link[i]; hid[j] = hid[i]; link[i] = -1; hid[i] = UINT64_MAX; break; }
        case 3: { size_t i = pick(2, "handle"); if (!h[i]) break; sym_note("destroy handle"); delete h[i]; h[i] = nullptr; link[i] = -1; break; }
        case 4: { size_t x = pick(1, "sender"); if (!s[x]) break; sym_note("destroy sender"); delete s[x]; s[x] = nullptr; drop((int) x, -1); break; }
        case 5: { size_t x = pick(1, "sender"); if (!s[x] || s[1 - x]) break; sym_note("move construct sender"); s[1 - x] = new Sn(std::move(*s[x])); sid[1 - x] = sid[x]; for (int &k : link) if (k == (int) x) k = 1 - (int) x; delete s[x]; s[x] = nullptr; break; }
        default: { size_t x = pick(1, "sender"); if (!s[x] || !s[1 - x]) break; sym_note("move assign sender"); drop(1 - (int) x, -1); *s[1 - x] = std::move(*s[x]); sid[1 - x] = sid[x]; for (int &k : link) if (k == (int) x) k = 1 - (int) x; delete s[x]; s[x] = nullptr; break; } }
      for (int i = 0; i < 3; i++) if (h[i] && link[i] < 0) { auto r = h[i]->header(h3::header_view("a", "b")); sym_check(!r && r.error() == E::invalid_handle, "a handle without a stream says so"); auto q = h[i]->fin(); sym_check(!q && q.error() == E::invalid_handle && !h[i]->start() && !h[i]->body(base::buffer()), "for every call"); } }
    // what is linked drives exactly its own sender
    for (int i = 0; i < 3; i++) if (h[i] && link[i] >= 0) { sym_check(h[i]->id() == hid[i] && hid[i] == sid[link[i]], "a handle names its stream"); sym_check(bool(h[i]->header(h3::header_view(":method", "GET"))) && bool(h[i]->fin()) && bool(h[i]->start()), "a linked handle works"); auto r = s[link[i]]->send(); sym_check(bool(r) && r.value().data.id == hid[i], "and drives its own stream"); auto q = s[link[i]]->send(); sym_check(bool(q) && q.value().data.fin, "to the end"); sym_reach("linked"); sym_trace(i); }
    for (auto &p : h) delete p; for (auto &p : s) delete p; sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- control streams
template <class Sn> static void control_send(uint64_t id) {
  Sn s; uint8_t w[64]; size_t n = 0; unsigned k = 0; for (;;) { auto r = s.send(); if (!r) { sym_check(r.error() == E::idle, "then idle"); break; } sym_check(r.value() == quic::event::type::data && r.value().data.id == id && !r.value().data.fin, "a control stream is never closed"); put_wire(w, n, r.value().data.buffer); sym_check(++k < 6, "finitely many"); }
  sym_check(!s.send() && s.send().error() == E::idle, "idle stays idle"); cur c{w, n}; uint64_t t; sym_check(ref_varint(c, t) == OK && t == 0, "the stream type comes first"); cur b{w, n, c.i}; rf f; bool loose; sym_check(ref_frame(b, f, loose) == OK && f.type == 4 && b.i == n, "then one SETTINGS frame, nothing else"); h3::settings d; sym_check(f.set[0] == d.max_header_list_size && f.set[1] == d.num_placeholders && f.set[2] == d.qpack_max_table_capacity && f.set[3] == d.qpack_blocked_streams, "with the local settings"); for (size_t i = 0; i < n; i++) sym_trace(w[i]); sym_reach("end"); }
ENTRY(control_sender) { uint64_t l = sym_live(); if (flip("server")) control_send<S::control::sender>(3); else control_send<C::control::sender>(2); sym_check(sym_live() == l, "no block leaks"); }
template <class R> static void control_recv(bool server, const uint8_t *a, size_t n) {
  R r; sym_check(r.id() == (server ? 2u : 3u), "the peer's control stream"); size_t cut = pick(n, "cut"); const size_t stops[2] = {cut, n}; size_t at = 0; cur c{a, n}; unsigned state = 0; bool stop = false;
  for (size_t p = 0; p < 2 && !stop; p++) { cur lim{a, stops[p], c.i}; sym_check(bool(r.recv(quic::data{r.id(), false, base::buffer(a + at, stops[p] - at)})), "control data is accepted"); at = stops[p];
    for (unsigned k = 0; !stop; k++) { sym_check(k < 12, "progress"); auto e = r.process(); sym_trace(bool(e));
      if (state == 0) { uint64_t t; if (ref_varint(lim, t) != OK) { sym_check(!e && e.error() == E::incomplete, "a partial stream type is incomplete"); break; } if (t != 0) { sym_check(!e && e.error() != E::incomplete, "a stream of another type is refused"); sym_reach("other type"); stop = true; break; } state = 1; }
      rf f; bool loose; st s = ref_frame(lim, f, loose); if (s == MORE) { sym_check(!e && (loose || e.error() == E::incomplete), "a partial frame is incomplete"); if (e.error() != E::incomplete) stop = true; break; } if (s == BAD) { sym_check(!e && e.error() == E::malformed_frame, "a malformed frame is refused"); sym_reach("malformed"); stop = true; break; }
      if (state == 1) { if (f.type != 4) { sym_check(!e && e.error() == E::missing_settings, "the first frame is SETTINGS"); sym_reach("missing"); stop = true; break; } sym_check(bool(e) && e.value() == Ev::type::settings && e.value().settings.max_header_list_size == f.set[0] && e.value().settings.num_placeholders == f.set[1] && e.value().settings.qpack_max_table_capacity == f.set[2] && e.value().settings.qpack_blocked_streams == f.set[3], "the peer's settings are reported"); state = 2; sym_reach("settings"); continue; }
      sym_check(!e, "no other event comes from a control stream"); stop = true; E x = e.error(); sym_reach("later frame");
      switch (f.type) { case 0: case 1: case 5: case 0xe: sym_check(x == E::wrong_stream, "request stream frames are refused"); break; case 4: sym_check(x == E::unexpected_frame, "SETTINGS come once"); break; case 7: sym_check(x == (server ? E::unexpected_frame : E::not_implemented), "GOAWAY"); break; case 3: sym_check(x == E::not_implemented, "CANCEL_PUSH"); break; default: sym_check(x == (server ? E::not_implemented : E::unexpected_frame), "MAX_PUSH_ID, PRIORITY"); } } c.i = lim.i; }
  auto z = r.recv(quic::data{r.id(), true, base::buffer()}); sym_check(!z && z.error() == E::closed_critical_stream, "closing the control stream is an error"); }
ENTRY(control_receiver) {
  uint64_t l = sym_live(); { uint8_t a[32]; size_t n = sym_param("n", 4), k = 0; size_t pre = sym_param("pre", 0); if (pre >= 1) a[k++] = 0; if (pre >= 2) { a[k++] = 4; a[k++] = 2; a[k++] = 6; a[k++] = 9; } sym_fill(a + k, n, "bytes"); uint64_t f = sym_param("first", 999); if (n && f < 256) sym_assume(a[k] == f); else if (n && f == 256) for (uint64_t t : TYPES) sym_assume(a[k] != t); k += n;
    if (flip("server")) control_recv<S::control::receiver>(true, a, k); else control_recv<C::control::receiver>(false, a, k); }
  sym_check(sym_live() == l, "no block leaks"); }
// a control stream of SETTINGS with many pairs and long unknown frames, in pieces
template <class R> static void control_long(bool server) {
  size_t pairs = sym_param("pairs", 100), len = sym_param("len", 300), cap = pairs * 16 + 8 * len + 400, n = 0; uint8_t *a = new uint8_t[cap], *p = new uint8_t[pairs * 16 + 64]; const uint64_t id[] = {6, 9, 1, 7}; uint64_t v[4]; size_t k = 0; for (auto &x : v) x = sym_int(8, "value"), sym_assume(fits(x)); auto wide = [&](uint8_t *d, uint64_t x) { for (size_t i = 0; i < 8; i++) d[i] = (uint8_t) (x >> (8 * (7 - i))); d[0] |= 0xc0; return (size_t) 8; };
  for (size_t i = 0; i < pairs; i++) { size_t j = 9; for (size_t q = 0; q < 4; q++) if (i == q * (pairs - 1) / 3) j = (q * 3 + 1) % 4; if (j < 4) { k += ref_varint_put(p + k, id[j]); k += wide(p + k, v[j]); } else { k += ref_varint_put(p + k, 100 + i * 77777); k += ref_varint_put(p + k, i * 131); } }
  auto unknown = [&](size_t size) { n += ref_varint_put(a + n, 0x21 + size * 31); n += ref_varint_put(a + n, size); for (size_t i = 0; i < size; i++) a[n++] = (uint8_t) (i * 7 + (i >> 8)); };
  a[n++] = 0; if (pick(1, "unknown first")) unknown(len); n += ref_varint_put(a + n, 4); n += ref_varint_put(a + n, k); for (size_t i = 0; i < k; i++) a[n++] = p[i]; size_t settings_end = n; unknown(0); unknown(len); unknown(1); unknown(len * 2); static const uint8_t last[] = {3, 4, 0, 1, 0xd, 7}; uint8_t type = last[pick(5, "then")]; a[n++] = type; if (type == 7 || type == 0xd || type == 3) { a[n++] = 1; a[n++] = (uint8_t) (sym_int(1, "id") & 63); } else a[n++] = 0;
  R r; const size_t S[] = {n / 40 + 1, n / 9 + 1, n / 2 + 1, 65536, settings_end}; size_t step = S[pick(4, "piece")], settings = 0; bool refused = false;
  for (size_t at = 0; at < n && !refused; at += step) { size_t m = n - at < step ? n - at : step; sym_check(bool(r.recv(quic::data{r.id(), false, base::buffer(a + at, m)})), "control data is accepted"); for (unsigned i = 0;; i++) { sym_check(i < 12, "progress"); auto e = r.process(); if (e) { sym_check(e.value() == Ev::type::settings && !settings && at + m >= settings_end, "settings are reported once, when they are complete"); if (e.value() == Ev::type::settings) { auto &s = e.value().settings; sym_check(s.max_header_list_size == v[0] && s.num_placeholders == v[1] && s.qpack_max_table_capacity == v[2] && s.qpack_blocked_streams == v[3], "the peer's settings are reported"); } settings++; continue; }
      if (e.error() == E::incomplete) { sym_check(at + m < n, "unknown frames are skipped and the frame behind them is found"); break; } sym_check(at + m >= n && settings == 1, "nothing but the last frame is refused"); E x = e.error(); switch (type) { case 0: case 1: sym_check(x == E::wrong_stream, "request stream frames are refused"); break; case 4: sym_check(x == E::unexpected_frame, "SETTINGS come once"); break; case 7: sym_check(x == (server ? E::unexpected_frame : E::not_implemented), "GOAWAY"); break; case 3: sym_check(x == E::not_implemented, "CANCEL_PUSH"); break; default: sym_check(x == (server ? E::not_implemented : E::unexpected_frame), "MAX_PUSH_ID"); } refused = true; break; } }
  sym_check(refused && settings == 1, "every frame is reached"); delete[] a; delete[] p; sym_trace(n); sym_reach("end"); }
ENTRY(control_many) { uint64_t l = sym_live(); if (flip("server")) control_long<S::control::receiver>(true); else control_long<C::control::receiver>(false); sym_check(sym_live() == l, "no block leaks"); }
