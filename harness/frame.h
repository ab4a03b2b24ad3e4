// Reference frame codec and conversions (HTTP/3 draft frames).
#pragma once
#include "seq.h"
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/result.hpp>
namespace h3 = bnl::http3;
using F = h3::frame; using T = h3::frame::type; using PT = h3::frame::payload::priority::type;
struct rf { uint64_t type, a, b, size; uint8_t w, x; uint64_t set[4]; }; // reference frame; set: max header list, placeholders, capacity, blocked
static const uint64_t MAXV = (1ULL << 62) - 1;
static rf frame_of(const F &f) {
  rf r = {}; r.type = (uint64_t) T(f);
  switch (T(f)) {
    case T::data: r.size = f.data.size; break; case T::headers: r.size = f.headers.size; break;
    case T::priority: r.w = f.priority.weight; r.x = (uint8_t) ((uint8_t) f.priority.prioritized_element_type << 2 | (uint8_t) f.priority.element_dependency_type); if ((uint8_t) f.priority.element_dependency_type > 3) r.x = 0xff; r.a = f.priority.prioritized_element_id; r.b = f.priority.element_dependency_id; break;
    case T::cancel_push: r.a = f.cancel_push.push_id; break;
    case T::settings: r.set[0] = f.settings.max_header_list_size; r.set[1] = f.settings.num_placeholders; r.set[2] = f.settings.qpack_max_table_capacity; r.set[3] = f.settings.qpack_blocked_streams; break;
    case T::push_promise: r.a = f.push_promise.push_id; r.size = f.push_promise.size; break; case T::goaway: r.a = f.goaway.stream_id; break; case T::max_push_id: r.a = f.max_push_id.push_id; break; case T::duplicate_push: r.a = f.duplicate_push.push_id; break; }
  return r; }
static bool eq(const rf &p, const rf &q) { return p.type == q.type && p.a == q.a && p.b == q.b && p.size == q.size && p.w == q.w && p.x == q.x && p.set[0] == q.set[0] && p.set[1] == q.set[1] && p.set[2] == q.set[2] && p.set[3] == q.set[3]; }
static void trace(const rf &f) { sym_trace(f.type); sym_trace(f.a); sym_trace(f.b); sym_trace(f.size); sym_trace(f.w); sym_trace(f.x); for (auto s : f.set) sym_trace(s); }
static F make(const rf &r) {
  switch ((T) r.type) {
    case T::data: return F(F::payload::data{r.size}); case T::headers: return F(F::payload::headers{r.size});
    case T::priority: return F(F::payload::priority{(PT) (r.x >> 2), (PT) (r.x & 3), r.a, r.b, r.w});
    case T::cancel_push: return F(F::payload::cancel_push{r.a});
    case T::settings: { h3::settings s; s.max_header_list_size = r.set[0]; s.num_placeholders = r.set[1]; s.qpack_max_table_capacity = r.set[2]; s.qpack_blocked_streams = r.set[3]; return F(s); }
    case T::push_promise: return F(F::payload::push_promise{r.a, r.size}); case T::goaway: return F(F::payload::goaway{r.a}); case T::max_push_id: return F(F::payload::max_push_id{r.a}); default: return F(F::payload::duplicate_push{r.a}); } }
static bool fits(uint64_t v) { return v <= MAXV; }
// reference encoder: the wire bytes of a frame without the payload of DATA, HEADERS and PUSH_PROMISE; false when a field has no encoding
static bool put(const rf &r, uint8_t *d, size_t &n) {
  uint8_t p[80]; size_t k = 0; uint64_t len = 0;
  switch ((T) r.type) {
    case T::data: case T::headers: if (!fits(r.size)) return false; len = r.size; break;
    case T::priority: if (!fits(r.a) || !fits(r.b)) return false; p[k++] = (uint8_t) (r.x << 4); k += ref_varint_put(p + k, r.a); k = sym_concrete(k); k += ref_varint_put(p + k, r.b); k = sym_concrete(k); p[k++] = r.w; len = k; break;
    case T::settings: { const uint64_t id[4] = {6, 9, 1, 7}; for (int i = 0; i < 4; i++) { if (i == 1 && r.set[1] == 0) continue; if (!fits(r.set[i])) return false; k += ref_varint_put(p + k, id[i]); k += ref_varint_put(p + k, r.set[i]); k = sym_concrete(k); } len = k; break; }
    case T::push_promise: if (!fits(r.a)) return false; k = sym_concrete(ref_varint_put(p, r.a)); if (!fits(r.size) || !fits(r.size + k)) return false; len = r.size + k; break;
    default: if (!fits(r.a)) return false; k = sym_concrete(ref_varint_put(p, r.a)); len = k; }
  n = ref_varint_put(d, r.type); n += ref_varint_put(d + n, len); n = sym_concrete(n); for (size_t i = 0; i < k; i++) d[n + i] = p[i]; n += k; return true; }
static const uint64_t TYPES[9] = {0, 1, 2, 3, 4, 5, 7, 0xd, 0xe};
// reference decoder: skips unknown frames; c.i is what has been consumed for good
static bool known(uint64_t t) { for (uint64_t k : TYPES) if (k == t) return true; return false; }
static st ref_frame(cur &c, rf &r, bool &loose) {
  loose = false; for (;;) {
    cur l = c; uint64_t t, len; r = rf{}; if (ref_varint(l, t) != OK || ref_varint(l, len) != OK) return MORE;
    if (!known(t)) { if (len > l.left()) return MORE; l.i += (size_t) sym_concrete(len); c.i = l.i; sym_reach("unknown frame skipped"); continue; }
    r.type = sym_concrete(t); if (t == 0 || t == 1) { r.size = len; c.i = l.i; return OK; }
    size_t start = l.i;
    switch ((T) t) {
      case T::priority: if (!l.left()) return MORE; r.x = l.p[l.i++] >> 4; if (ref_varint(l, r.a) != OK || ref_varint(l, r.b) != OK || !l.left()) { loose = true; return MORE; } r.w = l.p[l.i++]; break;
      case T::settings: { r.set[0] = MAXV; r.set[1] = r.set[2] = r.set[3] = 0; h3::settings d; r.set[0] = d.max_header_list_size; r.set[1] = d.num_placeholders; r.set[2] = d.qpack_max_table_capacity; r.set[3] = d.qpack_blocked_streams;
        while (l.i - start < len) { uint64_t id, v; if (ref_varint(l, id) != OK || ref_varint(l, v) != OK) { loose = true; return MORE; } if (id == 6) r.set[0] = v; else if (id == 9) r.set[1] = v; else if (id == 1) r.set[2] = v; else if (id == 7) r.set[3] = v; else sym_reach("unknown setting"); } break; }
      default: if (ref_varint(l, r.a) != OK) { loose = true; return MORE; } }
    uint64_t used = l.i - start; if (t == 5) { if (used > len) return BAD; r.size = len - used; } else if (used != len) return BAD;
    c.i = l.i; return OK; } }
