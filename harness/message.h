// Reference reading of a request stream: HEADERS, DATA*, unknown frames anywhere, and what a receiver reports for it.
#pragma once
#include "frame.h"
#include <bnl/http3/event.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/quic/event.hpp>
static huff H;
enum outcome { OPEN, DONE, ERR };
struct want {
  text name[4], value[4]; size_t headers = 0; bool complete = false; // header block complete
  uint8_t body[640]; size_t n = 0; outcome out = OPEN; h3::error err = h3::error::no_error; // no_error: any error
  bool loose = false; // a field line or frame runs past its frame: an error now or once more arrives
};
static void fail(want &w, h3::error e) { w.out = ERR; w.err = e; }
// the bytes a[0..n) of a stream, closed after them or not
static void read_stream(want &w, const uint8_t *a, size_t n, bool fin, bool server, bool start_in_body = false) {
  cur c{a, n}; w.complete = start_in_body;
  for (;;) {
    if (!c.left()) { if (!fin) return; if (w.complete) w.out = DONE; else fail(w, h3::error::malformed_frame); return; }
    cur l = c; uint64_t t, len; if (ref_varint(l, t) != OK || ref_varint(l, len) != OK) { if (fin) fail(w, h3::error::malformed_frame); return; }
    if (!known(t)) { if (len > l.left()) { if (fin) fail(w, h3::error::malformed_frame); return; } l.i += (size_t) sym_concrete(len); c.i = l.i; sym_reach("unknown frame"); continue; }
    if (t == 1 && !w.complete) {
      if (len == 0) { fail(w, h3::error::malformed_frame); return; }
      bool whole = len <= l.left(); size_t end = whole ? l.i + (size_t) sym_concrete(len) : n; cur h{a, end, l.i};
      if (h.left() < 2) { if (whole) { w.loose = true; } if (fin) fail(w, h3::error::no_error); return; }
      h.i += 2;
      for (;;) {
        if (whole && h.i == end) { if (!w.headers) { w.loose = true; if (fin) fail(w, h3::error::no_error); return; } w.complete = true; c.i = end; break; }
        text nm, v; st s = ref_field(H, h, nm, v);
        if (s == OK) { size_t k = w.headers++; w.name[k] = nm; w.value[k] = v; continue; }
        if (s == BAD) { fail(w, h3::error::no_error); return; }
        if (whole) w.loose = true; if (fin) fail(w, h3::error::no_error); return; }
      continue; }
    if (t == 0 && w.complete) {
      size_t k = len <= l.left() ? (size_t) sym_concrete(len) : l.left(); for (size_t i = 0; i < k; i++) w.body[w.n++] = l.p[l.i + i]; l.i += k; c.i = l.i;
      if (k < len) { if (fin) fail(w, h3::error::malformed_frame); return; } continue; }
    if (t == 1) { w.out = DONE; sym_reach("trailers"); return; } // a trailing header section ends the message
    if (t == 0) { fail(w, h3::error::unexpected_frame); return; }
    rf f; bool loose; cur g = c; st s = ref_frame(g, f, loose);
    if (s == MORE) { if (loose) w.loose = true; if (fin) fail(w, loose ? h3::error::no_error : h3::error::malformed_frame); return; }
    if (s == BAD) { fail(w, h3::error::malformed_frame); return; }
    switch (f.type) {
      case 2: fail(w, server && !w.complete ? h3::error::not_implemented : h3::error::unexpected_frame); return;
      case 5: case 0xe: fail(w, server ? h3::error::unexpected_frame : h3::error::not_implemented); return;
      default: fail(w, h3::error::wrong_stream); return; } } }
// what was actually reported
struct seen {
  const want &w; uint64_t id; size_t headers = 0, n = 0; bool block_end = false, body_end = false, finished = false; outcome out = OPEN; h3::error err = h3::error::no_error;
  void on(const h3::event &e) {
    sym_check(!finished, "nothing follows the end of a message");
    switch (e) {
      case h3::event::type::header: { sym_check(e.header.id == id, "an event names its stream"); sym_check(!block_end && headers < w.headers, "only headers on the wire are reported, before any body"); const auto &h = e.header.header; const text &nm = w.name[headers], &v = w.value[headers];
        sym_check(h.name().size() == nm.n && sym_eqmem(h.name().data(), nm.b, nm.n) && h.value().size() == v.n && sym_eqmem(h.value().data(), v.b, v.n), "headers are reported in order and unchanged"); headers++; sym_trace(headers); sym_trace(e.header.fin);
        sym_check(e.header.fin == (w.complete && headers == w.headers), "the last header of the block is marked, and no other"); block_end = e.header.fin; break; }
      case h3::event::type::body: { sym_check(e.body.id == id, "an event names its stream"); sym_check(block_end, "body follows the whole header block"); sym_check(!body_end, "no body follows the end of the body"); size_t k = e.body.buffer.size(); sym_check(n + k <= w.n && sym_eqmem(e.body.buffer.data(), w.body + n, k), "body bytes are reported in order and unchanged"); n += k; sym_trace(k); sym_trace(e.body.fin);
        if (e.body.fin) { body_end = true; sym_check(w.out == DONE && n == w.n, "the end of the body is reported only after all of it"); } break; }
      case h3::event::type::finished: sym_check(e.finished.id == id, "an event names its stream"); sym_check(w.out == DONE && block_end && n == w.n, "a message finishes only when it is complete"); finished = true; out = DONE; break;
      default: sym_check(false, "no settings on a request stream"); } }
  void verdict() {
    sym_check(headers == w.headers, "every complete header is reported"); if (w.out != ERR) sym_check(n == w.n, "every body byte is reported");
    if (w.loose) { sym_check(out != DONE, "a header block that overruns its frame does not finish"); if (w.out == ERR) sym_check(out == ERR, "a header block that overruns its frame is an error once the stream ends"); sym_reach("overrun"); return; }
    sym_check(out == w.out, "a message is finished, failed or waiting exactly when its bytes say so"); if (w.out == ERR && w.err != h3::error::no_error) sym_check(err == w.err, "the error says what is wrong");
    if (w.out == DONE) sym_reach("done"); else if (w.out == ERR) sym_reach("error"); else sym_reach("open"); } };
