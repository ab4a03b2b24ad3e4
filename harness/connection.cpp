// Connections: exchanges, robustness, isolation.
#include "harness.h"
#include "message.h"
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/server/connection.hpp>
#include <utility>
using E = h3::error; using Ev = h3::event; using Client = h3::client::connection; using Server = h3::server::connection; using Handle = h3::request::handle;
static base::string_view sv(const text &t) { return base::string_view((const char *) t.b, t.n); }
static bool is(const base::string_view &s, const text &t) { return s.size() == t.n && sym_eqmem(s.data(), t.b, t.n); }

// one message: up to two headers and two body parts
struct message { text n[2], v[2]; size_t headers = 0; uint8_t part[2][320]; size_t len[2] = {0, 0}, parts = 0;
  size_t size() const { return len[0] + len[1]; } uint8_t at(size_t i) const { return i < len[0] ? part[0][i] : part[1][i - len[0]]; } };
static void make_message(message &m, size_t headers, size_t parts, bool request) {
  m.headers = headers; put(m.n[0], request ? ":method" : ":status"); put(m.v[0], request ? "GET" : "200");
  if (headers > 1) { m.n[1].n = 1; sym_fill(m.n[1].b, 1, "name"); sym_assume(m.n[1].b[0] >= 'a' && m.n[1].b[0] <= 'z'); m.v[1].n = 1; sym_fill(m.v[1].b, 1, "value"); }
  m.parts = parts; for (size_t i = 0; i < parts; i++) { m.len[i] = i ? sym_param("psize", 22) : 1; size_t k = m.len[i] < 64 ? m.len[i] : 2; sym_fill(m.part[i], k, "body"); for (size_t j = k; j < m.len[i]; j++) m.part[i][j] = (uint8_t) (j * 3); } }
// what the receiving side has been told about one stream
struct record { size_t headers = 0, n = 0; bool block = false, end = false, finished = false; };
static void on(record &r, const message &m, Ev &e) {
  sym_check(!r.finished, "nothing follows the end of a message");
  switch (e) {
    case Ev::type::header: sym_check(!r.block && r.headers < m.headers && is(e.header.header.name(), m.n[r.headers]) && is(e.header.header.value(), m.v[r.headers]), "headers arrive once, in order and unchanged"); r.headers++; r.block = e.header.fin; sym_check(r.block == (r.headers == m.headers), "the last header is marked"); break;
    case Ev::type::body: sym_check(r.block && !r.end && r.n + e.body.buffer.size() <= m.size(), "no more body than was sent, after the headers"); for (size_t i = 0; i < e.body.buffer.size(); i++) sym_check(e.body.buffer[i] == m.at(r.n + i), "body bytes arrive in order and unchanged"); r.n += e.body.buffer.size(); r.end = e.body.fin; if (r.end) sym_check(r.n == m.size(), "the body ends after all of it"); break;
    case Ev::type::finished: sym_check(r.block && r.n == m.size(), "a message finishes complete"); r.finished = true; break;
    default: sym_check(false, "no settings on a request stream"); } }
// a transport: bytes of each stream in order, streams independent
struct line { uint64_t id = 0; uint8_t b[800]; size_t n = 0, at = 0; bool fin = false, fin_given = false, used = false; };
struct wire { line s[10]; size_t packets = 0;
  line &of(uint64_t id) { for (auto &l : s) if (l.used && l.id == id) return l; for (auto &l : s) if (!l.used) { l.used = true; l.id = id; return l; } sym_check(false, "no more streams than were opened"); return s[0]; }
  bool pending(const line &l) const { return l.used && (l.at < l.n || (l.fin && !l.fin_given)); } };
template <class S> static bool send_one(S &s, wire &w) { auto r = s.send(); if (!r) { sym_check(r.error() == E::idle, "a connection with nothing to send is idle"); return false; } sym_check(r.value() == quic::event::type::data, "output is data"); auto &d = r.value().data; line &l = w.of(d.id); sym_check(!l.fin, "nothing follows FIN on a stream"); for (size_t i = 0; i < d.buffer.size(); i++) l.b[l.n++] = d.buffer[i]; l.fin = d.fin; return true; }
template <class S> static void send_all(S &s, wire &w) { unsigned k = 0; while (send_one(s, w)) sym_check(++k < 40, "a connection runs out of things to send"); }
// delivers one piece of one pending stream, f(event) for what it means; false when nothing is pending
template <class R, class G> static bool deliver(R &r, wire &w, size_t mode, G f) {
  size_t c[10], k = 0; for (size_t i = 0; i < 10; i++) if (w.pending(w.s[i])) c[k++] = i; if (!k) return false;
  line &l = w.s[c[mode & 1 ? pick(k - 1, "stream") : 0]]; size_t left = l.n - l.at, m = mode & 2 && left > 1 ? (flip("piece") ? left / 2 : left) : left; if (mode & 4 && left > 0) m = pick_cut(left, "piece size"); 
  bool fin = l.fin && l.at + m == l.n && !(mode & 8 && m); if (mode & 4 && !m && !fin) { m = left; fin = l.fin; } auto g = r.recv(quic::event(quic::data{l.id, fin, base::buffer(l.b + l.at, m)})); l.at += m; l.fin_given = fin;
  sym_check(bool(g), "data of a peer that follows the protocol is accepted"); unsigned steps = 0; while (g.value().next()) { sym_check(++steps < 24, "processing makes progress"); auto e = g.value().get(); sym_check(bool(e), "a message of a peer that follows the protocol is no error"); if (!e) return false; f(l.id, e.value()); } return true; }
static void fill(Handle &h, const message &m, size_t upto, size_t from = 0) { // steps: headers+start, part 0, part 1, fin
  for (size_t i = from; i < upto; i++) switch (i) {
    case 0: for (size_t k = 0; k < m.headers; k++) sym_check(bool(h.header(h3::header_view(sv(m.n[k]), sv(m.v[k])))), "a header is accepted"); sym_check(bool(h.start()), "started"); break;
    case 1: case 2: if (i - 1 < m.parts) sym_check(bool(h.body(base::buffer(m.part[i - 1], m.len[i - 1]))), "body is accepted"); break;
    default: sym_check(bool(h.fin()), "closed"); } }
ENTRY(exchange) { // requests and responses over any interleaving of API calls, sends and deliveries
  huff_init(H); uint64_t live = sym_live(); {
    size_t reqs = sym_param("requests", 1), mode = sym_param("mode", 1), split = pick(sym_param("splits", 4), "request split"), rsplit = pick(sym_param("rsplits", 4), "response split"); bool part = mode & 32; bool early = sym_param("early", 0);
    Client c; Server s; wire up, down; static message q[4], p[4]; record rq[4], rp[4]; h3::settings ds; bool cs = false, ss = false;
    size_t rounds = sym_param("rounds", 1), base_ = 0; unsigned steps = 0; Handle h[4], a[4];
    for (size_t round = 0; round < rounds; round++, base_ += reqs) {
    for (size_t i = 0; i < reqs; i++) { rq[i] = rp[i] = record(); q[i] = message(); p[i] = message(); make_message(q[i], 1 + sym_param("extra", 1), sym_param("parts", 2), true); make_message(p[i], 1 + sym_param("extra", 1), sym_param("rparts", 1), false); }
    bool answered[4] = {};
    for (size_t i = 0; i < reqs; i++) { auto r = c.request(); sym_check(bool(r), "a request is opened"); h[i] = std::move(r).value(); sym_check(h[i].id() == 4 * (base_ + i), "request streams are numbered 0, 4, 8"); fill(h[i], q[i], split); }
    auto answer = [&](size_t i) { auto r = s.response(4 * (base_ + i)); sym_check(bool(r), "a request that arrived can be answered"); if (!r) return; a[i] = std::move(r).value(); sym_check(a[i].id() == 4 * (base_ + i), "on its stream"); fill(a[i], p[i], rsplit); send_all(s, down); answered[i] = true; if (!part) { fill(a[i], p[i], 4, rsplit); send_all(s, down); } };
    auto server_sees = [&](uint64_t id, Ev &e) { if (id == 2) { sym_check(e == Ev::type::settings && e.settings.max_header_list_size == ds.max_header_list_size && !cs, "the client's settings arrive once"); cs = true; return; } size_t i = id / 4 - base_; sym_check(id % 4 == 0 && i < reqs, "events belong to a request"); on(rq[i], q[i], e); if (early && !answered[i] && rq[i].block) answer(i); };
    auto client_sees = [&](uint64_t id, Ev &e) { if (id == 3) { sym_check(e == Ev::type::settings && !ss, "the server's settings arrive once"); ss = true; return; } size_t i = id / 4 - base_; sym_check(id % 4 == 0 && i < reqs, "events belong to a request"); on(rp[i], p[i], e); };
    send_all(c, up); if (mode & 16) while (deliver(s, up, mode, server_sees)) sym_check(++steps < 200, "ends"); if (part) while (deliver(c, down, mode, client_sees)) sym_check(++steps < 200, "ends");
    for (size_t i = 0; i < reqs; i++) fill(h[i], q[i], 4, split); send_all(c, up); while (deliver(s, up, mode, server_sees)) sym_check(++steps < 200, "ends");
    for (size_t i = 0; i < reqs; i++) { sym_check(rq[i].finished, "every request arrives"); if (!answered[i]) answer(i); if (part) { fill(a[i], p[i], 4, rsplit); send_all(s, down); } }
    while (deliver(c, down, mode, client_sees)) sym_check(++steps < 200, "ends");
    for (size_t i = 0; i < reqs; i++) { sym_check(rp[i].finished, "every response arrives"); sym_trace(rp[i].n); sym_check(!s.response(4 * (base_ + i)) && s.response(4 * (base_ + i)).error() == E::stream_closed, "an answered request is closed"); auto x = h[i].header(h3::header_view("a", "b")); sym_check(!x && x.error() == E::invalid_handle, "and its handle is invalid"); x = a[i].header(h3::header_view("a", "b")); sym_check(!x && x.error() == E::invalid_handle, "on both sides"); }
    sym_check(!c.send() && !s.send(), "nothing is left to send"); }
    sym_check(cs && ss, "both sides have the other's settings"); sym_check(!c.send() && !s.send(), "nothing is left to send"); sym_trace(steps); sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }

// many requests at once on one connection, and their responses, in several orders
ENTRY(exchange_many) {
  huff_init(H); uint64_t live = sym_live(); {
    size_t count = sym_param("requests", 100), order = pick(2, "order of the answers"), sx = count * 2 / 3, steps = 0, per = sym_param("together", count); bool late = flip("finished later"); uint8_t qx = (uint8_t) sym_int(1, "request body"), px = (uint8_t) sym_int(1, "response body"); struct side { uint8_t headers = 0, body = 0; bool done = false; }; auto *rq = new side[count], *rp = new side[count]; auto *h = new Handle[per], *an = new Handle[per]; auto byte = [&](size_t i, bool req) { return i == sx ? (req ? qx : px) : (uint8_t) (i * 3 + (i >> 8) + req); };
    Client c; Server s; 
    auto on1 = [&](side *r, uint64_t id, uint64_t own, Ev &e, bool req) { if (id == own) { sym_check(e == Ev::type::settings, "settings come first"); return; } size_t i = id / 4; sym_check(id % 4 == 0 && i < count && !r[i].done, "events belong to an open request"); if (i >= count) return; switch (e) { case Ev::type::header: sym_check(e.header.id == id && !r[i].headers && e.header.fin && e.header.header.value() == base::string_view(req ? "GET" : "200"), "one header"); r[i].headers++; break; case Ev::type::body: sym_check(e.body.id == id && r[i].headers && e.body.buffer.size() + r[i].body <= 1, "one byte of body"); if (e.body.buffer.size()) { sym_check(e.body.buffer[0] == byte(i, req), "unchanged"); r[i].body++; } break; default: sym_check(e == Ev::type::finished && r[i].body == 1, "finished after all of it"); r[i].done = true; } };
    auto pass = [&](auto &from, auto &to, side *r, uint64_t own, bool req) { for (;;) { sym_check(++steps < 40 * count + 400, "ends"); auto o = from.send(); if (!o) { sym_check(o.error() == E::idle, "idle when everything is sent"); break; } uint64_t id = o.value().data.id; auto g = to.recv(std::move(o.value())); sym_check(bool(g), "accepted"); while (g.value().next()) { auto e = g.value().get(); sym_check(bool(e), "no error"); if (!e) break; on1(r, id, own, e.value(), req); } } };
    for (size_t base_ = 0; base_ < count; base_ += per) { size_t k = count - base_ < per ? count - base_ : per;
      for (size_t j = 0; j < k; j++) { size_t i = base_ + j; auto r = c.request(); sym_check(bool(r), "a request is opened"); h[j] = std::move(r).value(); sym_check(h[j].id() == 4 * i, "request streams are numbered 0, 4, 8"); uint8_t b = byte(i, true); sym_check(bool(h[j].header(h3::header_view(":method", "GET"))) && bool(h[j].start()) && bool(h[j].body(base::buffer(&b, 1))), "filled"); if (!late) sym_check(bool(h[j].fin()), "closed"); }
      pass(c, s, rq, 2, true); if (late) { for (size_t j = 0; j < k; j++) { sym_check(!rq[base_ + j].done && bool(h[j].fin()), "closed later"); } pass(c, s, rq, 2, true); }
      for (size_t j = 0; j < k; j++) { size_t o = order == 0 ? j : order == 1 ? k - 1 - j : j * 2 < k ? j * 2 : ((j * 2 - k) | 1) % k, i = base_ + o; sym_check(rq[i].done, "every request arrives"); auto r = s.response(4 * i); sym_check(bool(r) || (order == 2 && an[o].id() == 4 * i), "every request can be answered"); if (!r) continue; an[o] = std::move(r).value(); uint8_t b = byte(i, false); if (!an[o].header(h3::header_view(":status", "200"))) continue; sym_check(an[o].id() == 4 * i && bool(an[o].start()) && bool(an[o].body(base::buffer(&b, 1))) && bool(an[o].fin()), "answered"); if (j % 3 == 0) pass(s, c, rp, 3, false); }
      pass(s, c, rp, 3, false);
      for (size_t j = 0; j < k; j++) { size_t i = base_ + j; sym_check(rp[i].done, "every response arrives"); auto r = s.response(4 * i); sym_check(!r && r.error() == E::stream_closed, "and its stream is closed"); auto x = h[j].fin(); sym_check(!x && x.error() == E::invalid_handle, "on both sides"); } }
    sym_check(!c.send() && !s.send(), "nothing is left to send"); delete[] rq; delete[] rp; delete[] h; delete[] an; sym_trace(steps); sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }

// any events at all: no crash, no exception, no endless processing
template <class C> static void drain(C &c, quic::event e, size_t &events, size_t &errors) { auto g = c.recv(std::move(e)); if (!g) { errors++; sym_trace((uint64_t) g.error()); return; } unsigned k = 0; while (g.value().next()) { sym_check(++k < 24, "processing makes progress"); auto x = g.value().get(); if (!x) { errors++; sym_trace((uint64_t) x.error()); break; } events++; } auto z = g.value().get(); (void) z; }
static const uint64_t IDS[] = {0, 3, 2, 4, 1, 6, 7, 0xc, (1ULL << 62) - 1};
static size_t piece(uint8_t *a) { // protocol fragments and arbitrary bytes
  static const uint8_t F0[] = {0x00, 0x04, 0x00}, F1[] = {0x01, 0x03, 0x00, 0x00, 0xd1}, F2[] = {0x00, 0x01}; size_t n = 0;
  switch (pick(sym_param("pieces", 4), "piece")) { case 0: break; case 1: n = sym_param("n", 1); sym_fill(a, n, "bytes"); break; case 2: for (uint8_t x : F1) a[n++] = x; break; case 3: for (uint8_t x : F0) a[n++] = x; break; default: for (uint8_t x : F2) a[n++] = x; } return n; }
template <class C> static void any_events(C &c, Handle *h, size_t handles) {
  size_t events = 0, errors = 0, depth = sym_param("depth", 3);
  for (size_t d = 0; d < depth; d++) {
    size_t op = d == 0 ? sym_param("op0", 0) : pick(3, "operation");
    if (op == 0) { uint8_t a[16]; size_t n = piece(a); uint64_t id = IDS[d == 0 && sym_param("id0", 99) < 9 ? sym_param("id0", 99) : pick(sym_param("ids", 4), "stream")]; bool fin = flip("FIN"); sym_note("data"); drain(c, quic::event(quic::data{id, fin, base::buffer(a, n)}), events, errors); }
    else if (op == 1) { sym_note("send"); for (unsigned k = 0;; k++) { sym_check(k < 24, "sending ends"); auto r = c.send(); if (!r) { sym_check(r.error() == E::idle, "sending only ever runs dry"); break; } sym_trace(r.value().data.id); } }
    else if (op == 2) { sym_note("transport error"); drain(c, quic::event(quic::application::error{quic::application::error::type::stop_sending, IDS[pick(1, "stream")], 7}), events, errors); }
    else { sym_note("handle"); size_t i = pick(handles - 1, "handle"); (void) h[i].header(h3::header_view(":method", "GET")); (void) h[i].start(); uint8_t x[1] = {1}; (void) h[i].body(base::buffer(x, 1)); (void) h[i].fin(); } }
  sym_trace(events); sym_trace(errors); sym_reach("end"); }
ENTRY(server_any) { uint64_t live = sym_live(); { Server s; Handle h[2]; size_t ev = 0, er = 0; if (sym_param("open", 1)) { const uint8_t a[] = {0x01, 0x03, 0x00, 0x00, 0xd1}; drain(s, quic::event(quic::data{0, false, base::buffer(a, 5)}), ev, er); auto r = s.response(0); sym_check(bool(r), "a request can be answered"); h[0] = std::move(r).value(); } any_events(s, h, 1); } sym_check(sym_live() == live, "no block leaks"); }
ENTRY(client_any) { uint64_t live = sym_live(); { Client c; Handle h[2]; for (auto &x : h) { auto r = c.request(); x = std::move(r).value(); } (void) h[0].header(h3::header_view(":method", "GET")); (void) h[0].start(); if (sym_param("sent", 1)) while (c.send()) ; any_events(c, h, 2); } sym_check(sym_live() == live, "no block leaks"); }
// requests on any streams a client may open
ENTRY(server_streams) {
  uint64_t live = sym_live(); { Server s; const size_t n = 2; uint64_t id[n]; for (auto &x : id) { x = sym_int(8, "stream id"); sym_assume(x < 1ull << 62 && x % 4 == 0); } sym_assume(id[0] != id[1]); const uint8_t a[] = {0x01, 0x03, 0x00, 0x00, 0xd1, 0x00, 0x01}; bool half = flip("in two pieces"), done[n] = {}, answered[n] = {}, closed[n] = {}; size_t headers[n] = {}, bodies[n] = {}; uint8_t b[n] = {(uint8_t) sym_int(1, "body"), (uint8_t) sym_int(1, "body")}; Handle h[n]; 
    auto feed = [&](size_t i, size_t from, size_t to) { uint8_t w[8]; memcpy(w, a, 7); w[7] = b[i]; auto g = s.recv(quic::event(quic::data{id[i], to == 8, base::buffer(w + from, to - from)})); sym_check(bool(g), "accepted"); while (g.value().next()) { auto e = g.value().get(); sym_check(bool(e), "a good request is no error"); if (!e) return; auto &v = e.value(); switch (v) { case Ev::type::header: sym_check(v.header.id == id[i] && !headers[i]++, "a header comes on its stream, once"); break; case Ev::type::body: sym_check(v.body.id == id[i] && v.body.buffer.size() <= 1, "a body comes on its stream"); for (size_t k = 0; k < v.body.buffer.size(); k++) { sym_check(v.body.buffer[k] == b[i], "unchanged"); bodies[i]++; } break; case Ev::type::finished: sym_check(v.finished.id == id[i] && headers[i] == 1 && bodies[i] == 1, "the end comes on its stream, last"); done[i] = true; break; default: sym_check(false, "nothing else"); } } };
    for (size_t i = 0; i < n; i++) feed(i, 0, half ? 6 : 8); if (half) for (size_t i = n; i-- > 0;) feed(i, 6, 8); for (size_t i = 0; i < n; i++) { sym_check(done[i], "every request arrives"); auto r = s.response(id[i]); sym_check(bool(r), "and can be answered"); if (!r) return; h[i] = std::move(r).value(); sym_check(h[i].id() == id[i] && bool(h[i].header(h3::header_view(":status", "200"))) && bool(h[i].start()) && bool(h[i].fin()), "on its stream"); }
    for (size_t k = 0;; k++) { sym_check(k < 24, "ends"); auto r = s.send(); if (!r) break; auto &d = r.value().data; if (d.id == 3) continue; size_t i = d.id == id[0] ? 0 : 1; sym_check(d.id == id[i] && !closed[i], "answers go out on the streams of their requests"); answered[i] = true; closed[i] = d.fin; } sym_check(closed[0] && closed[1], "whole"); { auto r = s.response(id[0]); sym_check(!r && r.error() == E::stream_closed, "and end them"); } sym_trace(closed[0]); sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }
// a generator kept while its stream goes away
ENTRY(generator_lifetime) {
  uint64_t live = sym_live(); { Server s; const uint8_t a[] = {0x01, 0x03, 0x00, 0x00, 0xd1, 0x00, 0x01, 0x55}; size_t n = 5 + pick(3, "received"); bool fin = flip("FIN"); auto g = s.recv(quic::event(quic::data{0, fin, base::buffer(a, n)})); sym_check(bool(g), "accepted"); size_t answer_at = pick(3, "answer after"), step = 0;
    for (;; step++) { if (step == answer_at) { auto r = s.response(0); if (r) { Handle h = std::move(r).value(); sym_check(bool(h.header(h3::header_view(":status", "200"))) && bool(h.start()) && bool(h.fin()), "answered"); while (s.send()) ; sym_reach("answered"); } } sym_check(step < 8, "progress"); if (!g.value().next()) break; auto e = g.value().get(); sym_trace(bool(e)); if (!e) break; auto z = g.value().get(); sym_check(!z, "an event is delivered once"); }
    if (!fin) { auto g2 = s.recv(quic::event(quic::data{0, true, base::buffer(a + n, 8 - n)})); sym_check(bool(g2), "the rest of the request is accepted, answered or not"); size_t k = 0; bool done = false; while (g2.value().next()) { sym_check(++k < 8, "progress"); auto e = g2.value().get(); sym_check(bool(e), "and is no error"); if (!e) break; if (e.value() == Ev::type::finished) done = true; } sym_check(done, "and finishes"); sym_reach("rest"); } sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }

// streams do not disturb each other; sending order
ENTRY(server_scheduling) {
  uint64_t live = sym_live(); { Server s; Handle h[3]; bool ready[3], fin[3], whole[3]; size_t n = 3; size_t ev = 0, er = 0; const uint8_t a[] = {0x01, 0x03, 0x00, 0x00, 0xd1};
    for (size_t i = 0; i < n; i++) { whole[i] = flip("request received"); ready[i] = flip("started"); fin[i] = flip("closed"); drain(s, quic::event(quic::data{4 * i, whole[i], base::buffer(a, 5)}), ev, er); auto r = s.response(4 * i); sym_check(bool(r), "answered"); h[i] = std::move(r).value(); sym_check(h[i].id() == 4 * i, "on its stream"); sym_check(bool(h[i].header(h3::header_view(":status", "200"))), "header"); if (ready[i]) sym_check(bool(h[i].start()), "start"); if (fin[i]) sym_check(bool(h[i].fin()), "fin"); }
    bool moved = flip("connection moved"); Server other; if (moved) other = std::move(s); Server &k = moved ? other : s;
    uint64_t last = 3; bool got[3] = {}, closed[3] = {}; unsigned pieces = 0; auto run = [&] { for (;; pieces++) { sym_check(pieces < 32, "ends"); auto r = k.send(); if (!r) { sym_check(r.error() == E::idle, "idle"); break; } auto &d = r.value().data; if (d.id == 3) { sym_check(last == 3, "the control stream goes first"); continue; } sym_check(d.id % 4 == 0 && d.id / 4 < n, "only opened streams"); sym_check(last == 3 || d.id >= last, "lower streams go first"); last = d.id; got[d.id / 4] = true; sym_check(!closed[d.id / 4], "nothing follows FIN"); if (d.fin) closed[d.id / 4] = true; } };
    run(); for (size_t i = 0; i < n; i++) { sym_check(got[i] == ready[i] && closed[i] == (ready[i] && fin[i]), "every stream with something to send gets to send all of it"); sym_trace(closed[i]); bool gone = closed[i] && whole[i]; auto r = k.response(4 * i); sym_check(bool(r) == !gone, "an exchange is over exactly when both directions are"); if (r) h[i] = std::move(r).value(); auto x = h[i].body(base::buffer()); sym_check(gone ? !x && x.error() == E::invalid_handle : bool(x) == !fin[i], "handles follow"); }
    last = 0; for (size_t i = 0; i < n; i++) { if (!ready[i]) sym_check(bool(h[i].start()), "handles survive a move of the connection"); if (!fin[i]) sym_check(bool(h[i].fin()), "and close"); } run(); sym_check(closed[0] && closed[1] && closed[2], "all streams end");
    for (size_t i = 0; i < n; i++) if (!whole[i]) drain(k, quic::event(quic::data{4 * i, true, base::buffer()}), ev, er); for (size_t i = 0; i < n; i++) sym_check(!k.response(4 * i), "all exchanges are over"); sym_trace(ev); sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }
ENTRY(scheduling) {
  huff_init(H); uint64_t live = sym_live(); { Client c; Handle h[3]; bool ready[3], fin[3]; size_t n = 3; for (size_t i = 0; i < n; i++) { auto r = c.request(); h[i] = std::move(r).value(); sym_check(h[i].id() == 4 * i, "request streams are numbered 0, 4, 8"); ready[i] = flip("started"); fin[i] = flip("closed"); sym_check(bool(h[i].header(h3::header_view(":method", "GET"))), "header"); if (ready[i]) sym_check(bool(h[i].start()), "start"); if (fin[i]) sym_check(bool(h[i].fin()), "fin"); }
    bool moved = flip("connection moved"); Client other; if (moved) other = std::move(c); Client &k = moved ? other : c;
    uint64_t last = 2; unsigned control = 0; bool got[3] = {}, closed[3] = {}; unsigned pieces = 0; for (;; pieces++) { sym_check(pieces < 16, "ends"); auto r = k.send(); if (!r) { sym_check(r.error() == E::idle, "idle"); break; } auto &d = r.value().data; if (d.id == 2) { sym_check(last == 2, "the control stream goes first"); control++; continue; } sym_check(d.id % 4 == 0 && d.id / 4 < n, "only opened streams"); sym_check(last == 2 || d.id >= last, "lower streams go first"); last = d.id; got[d.id / 4] = true; if (d.fin) closed[d.id / 4] = true; }
    sym_check(control == 2, "type and settings"); for (size_t i = 0; i < n; i++) { sym_check(got[i] == ready[i] && closed[i] == (ready[i] && fin[i]), "every stream with something to send gets to send all of it"); sym_trace(got[i]); }
    // an idle stream becomes ready later
    for (size_t i = 0; i < n; i++) { if (!ready[i]) sym_check(bool(h[i].start()), "handles survive a move of the connection"); if (!fin[i]) sym_check(bool(h[i].fin()), "and close"); } for (;; pieces++) { sym_check(pieces < 32, "ends"); auto r = k.send(); if (!r) break; if (r.value().data.fin) closed[r.value().data.id / 4] = true; } sym_check(closed[0] && closed[1] && closed[2], "all streams end"); sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }
template <class R> static void feed_good(R &r, uint64_t id, size_t step, record &o, const message &m, const uint8_t *w, size_t n) { size_t from = step == 0 ? 0 : n / 2, to = step == 0 ? n / 2 : n; auto g = r.recv(quic::event(quic::data{id, step == 1, base::buffer(w + from, to - from)})); sym_check(bool(g), "accepted"); unsigned k = 0; while (g.value().next()) { sym_check(++k < 16, "progress"); auto e = g.value().get(); sym_check(bool(e), "a good stream is no error"); if (!e) return; on(o, m, e.value()); } }
static void feed_bad(Server *s, Client *c, uint64_t id, const uint8_t *a, size_t n, bool fin) { size_t x = 0, y = 0; if (s) drain(*s, quic::event(quic::data{id, fin, base::buffer(a, n)}), x, y); else drain(*c, quic::event(quic::data{id, fin, base::buffer(a, n)}), x, y); if ((id & 2) && id != (s ? 2u : 3u)) { sym_check(!x && !y, "unidirectional streams of unknown types are ignored"); sym_reach("ignored"); } if (y) sym_reach("error"); if (x) sym_reach("event"); }
ENTRY(isolation) { // arbitrary bytes on one stream, a good message on another, interleaved
  huff_init(H); uint64_t live = sym_live(); { bool server = sym_param("server", 0); Client c; Server s; if (!server) { for (int i = 0; i < 2; i++) { auto r = c.request(); Handle h = std::move(r).value(); (void) h.header(h3::header_view(":method", "GET")); (void) h.start(); (void) h.fin(); while (c.send()) ; } }
    message m; m.headers = 1; put(m.n[0], ":method"); put(m.v[0], "GET"); m.parts = 1; m.len[0] = 2; sym_fill(m.part[0], 2, "body"); uint8_t w[16] = {1, 3, 0, 0, 0xd1, 0, 2}; w[7] = m.part[0][0]; w[8] = m.part[0][1]; size_t n = 9; record o;
    static const uint64_t BAD[] = {4, 6, 7, 2, 3}; uint64_t good = 0, bad = BAD[pick(sym_param("bad", 2), "other stream")]; if (bad == 4 && flip("swap")) { good = 4; bad = 0; } uint8_t a[16]; size_t k = 0; if (flip("after a header block")) for (size_t i = 0; i < 5; i++) a[k++] = w[i]; size_t z = sym_param("n", 2); sym_fill(a + k, z, "bytes"); k += z; bool fin = flip("FIN");
    size_t when = pick(2, "when"); auto good_step = [&](size_t i) { if (server) feed_good(s, good, i, o, m, w, n); else feed_good(c, good, i, o, m, w, n); }; 
    if (when == 0) feed_bad(server ? &s : nullptr, &c, bad, a, k, fin); good_step(0); if (when == 1) feed_bad(server ? &s : nullptr, &c, bad, a, k, fin); good_step(1); if (when == 2) feed_bad(server ? &s : nullptr, &c, bad, a, k, fin);
    sym_check(o.finished, "the good message arrives whole"); sym_trace(o.n); if (server) { auto r = s.response(good); sym_check(bool(r), "and can be answered"); } sym_reach("end"); }
  sym_check(sym_live() == live, "no block leaks"); }
