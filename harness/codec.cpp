// Integer and frame codecs: RFC 9000 section 16, HTTP/3 frames (draft-ietf-quic-http), RFC 7541 section 5.1.
#include "harness.h"
#include "frame.h"
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/result.hpp>
namespace h3 = bnl::http3;
// ---------------------------------------------------------------- varint
ENTRY(varint_encode) {
  uint64_t v = sym_int(8, "value"); uint8_t b[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0x5a};
  auto r = h3::varint::encoded_size(v); auto e = h3::varint::encode(b, v); auto o = h3::varint::encode(v);
  if (v >> 62) { sym_check(!r && !e && !o && r.error() == h3::error::varint_overflow && e.error() == h3::error::varint_overflow && o.error() == h3::error::varint_overflow, "a value of 2^62 or more is rejected"); for (unsigned i = 0; i < 8; i++) sym_check(b[i] == 0, "nothing is written for a rejected value"); sym_reach("overflow"); return; }
  sym_check(bool(r) && bool(e) && bool(o), "a value below 2^62 is encoded");
  uint8_t x[8]; size_t k = ref_varint_put(x, v); k = sym_concrete(k); sym_check(r.value() == k && e.value() == k && o.value().size() == k, "shortest encoding"); sym_trace(b[0]); sym_trace(b[k - 1]); sym_trace(k);
  for (unsigned i = 0; i < 8; i++) sym_check(i < k ? b[i] == x[i] && o.value()[i] == x[i] : b[i] == 0, "big endian with length prefix, and nothing beyond"); sym_check(b[8] == 0x5a, "nothing beyond");
  base::buffer w(b, 9); auto d = h3::varint::decode(w); sym_check(bool(d) && d.value() == v && w.size() == 9 - k, "decodes to the value"); sym_reach("roundtrip"); }
ENTRY(varint_decode) {
  size_t n = sym_param("n", 8); uint8_t a[16]; sym_fill(a, n, "bytes"); cur c{a, n}; uint64_t v = 0; st s = ref_varint(c, v);
  each_seq(a, n, [&](auto &q) { auto r = h3::varint::decode(q);
    if (s == OK) { sym_check(bool(r) && r.value() == v, "the encoded value is decoded"); rest_is(q, a, n, c.i, "exactly the encoding is consumed"); sym_trace(v); sym_reach("value"); }
    else { sym_check(!r && r.error() == h3::error::incomplete, "a truncated integer is incomplete"); rest_is(q, a, n, 0, "a truncated integer consumes nothing"); sym_reach("incomplete"); } sym_trace(q.size()); }); }
// ---------------------------------------------------------------- prefix integers
ENTRY(prefix_encode) {
  unsigned prefix = (unsigned) sym_param("prefix", 5); uint64_t v = sym_int(8, "value"); uint8_t flags = (uint8_t) sym_int(1, "bits above the prefix") & (uint8_t) ~((1u << prefix) - 1); uint8_t x[16] = {0}, b[16]; for (auto &y : b) y = 0xee; b[0] = flags;
  size_t k = ref_prefix_put(x, v, prefix, flags); k = sym_concrete(k); size_t r = h3::qpack::prefix_int::encoded_size(v, (uint8_t) prefix), e = h3::qpack::prefix_int::encode(b, v, (uint8_t) prefix);
  sym_check(r == k && e == k, "the size is that of the RFC encoding"); for (size_t i = 0; i < k; i++) sym_check(b[i] == x[i], "the bytes are the RFC encoding, bits above the prefix kept"); for (size_t i = k; i < 16; i++) sym_check(b[i] == 0xee, "nothing is written beyond the encoding"); sym_trace(k); sym_trace(b[k - 1]);
  base::buffer o = h3::qpack::prefix_int::encode(v, (uint8_t) prefix); sym_check(o.size() == k, "the buffer has the encoded size"); for (size_t i = 0; i < k && i < o.size(); i++) sym_check(o[i] == (i ? x[i] : (uint8_t) (x[0] & ((1u << prefix) - 1))), "the buffer holds the encoding, zero above the prefix");
  if (!(v >> 62)) { base::buffer w(b, 16); auto d = h3::qpack::prefix_int::decode(w, (uint8_t) prefix); sym_check(bool(d) && d.value() == v && w.size() == 16 - k, "decodes to the value"); sym_reach("roundtrip"); } if (k == 1) sym_reach("one byte"); if (k == 10) sym_reach("long"); }
ENTRY(prefix_decode) {
  unsigned prefix = (unsigned) sym_param("prefix", 5); size_t n = sym_param("n", 4); uint8_t a[24]; sym_fill(a, n, "bytes"); cur c{a, n}; uint64_t v = 0; bool big = false; st s = ref_prefix(c, prefix, v, big); bool odd = c.i > 10; // padded beyond 9 continuation bytes
  each_seq(a, n, [&](auto &q) { auto r = h3::qpack::prefix_int::decode(q, (uint8_t) prefix); sym_trace(bool(r)); 
    if (r) { sym_check(s == OK && r.value() == v && (!big || (v >> 62 && !odd)), "a decoded integer is the encoded one, never a wrapped one"); rest_is(q, a, n, c.i, "exactly the encoding is consumed"); sym_trace(r.value()); sym_reach("value"); }
    else { rest_is(q, a, n, 0, "a failed decode consumes nothing"); if (s == OK) { sym_check(big || odd, "an integer below 2^62 is decoded"); sym_check(r.error() != h3::error::incomplete, "a complete integer is not incomplete"); sym_reach("rejected"); } else { if (n < 10) sym_check(r.error() == h3::error::incomplete, "a truncated integer is incomplete"); sym_reach("incomplete"); } } }); }

// ---------------------------------------------------------------- frames
ENTRY(frame_encode) {
  uint64_t l = sym_live(); { rf r = {}; r.type = TYPES[sym_param("type", 0)];
    switch ((T) r.type) { case T::data: case T::headers: r.size = sym_int(8, "size"); break; case T::priority: r.a = sym_int(8, "element"); r.b = sym_int(8, "dependency"); r.w = (uint8_t) sym_int(1, "weight"); r.x = (uint8_t) sym_int(1, "types") & 15; break;
      case T::settings: for (int i = 0; i < 4; i++) r.set[i] = sym_int(8, "setting"); break; case T::push_promise: r.size = sym_int(8, "size"); default: r.a = sym_int(8, "id"); }
    F f = make(r); sym_check(T(f) == (T) r.type && eq(frame_of(f), r), "a frame keeps its fields"); F g(f); sym_check(f == g && !(f != g), "a copied frame is equal");
    uint8_t x[96], b[96]; for (auto &y : b) y = 0xee; size_t k = 0; bool ok = put(r, x, k);
    auto s = F::encoded_size(f); auto e = F::encode(b, f); auto o = F::encode(f);
    if (!ok) { sym_check(!s && !e && !o && s.error() == h3::error::varint_overflow && e.error() == h3::error::varint_overflow && o.error() == h3::error::varint_overflow, "a frame with a field or length of 2^62 or more is rejected"); sym_reach("rejected"); return; }
    sym_check(bool(s) && bool(e) && bool(o), "a frame whose fields are below 2^62 is encoded"); sym_check(s.value() == k && e.value() == k && o.value().size() == k, "the announced size is the number of bytes written");
    for (size_t i = 0; i < k; i++) sym_check(b[i] == x[i] && o.value()[i] == x[i], "the bytes are the wire format"); for (size_t i = k; i < 96; i++) sym_check(b[i] == 0xee, "nothing is written beyond the announced size"); for (size_t i = 0; i < k; i++) sym_trace(b[i]);
    each_seq(b, k, [&](auto &q) { auto p = F::peek(q); sym_check(bool(p) && p.value() == (T) r.type, "peek reports the type of an encoded frame"); sym_check(q.size() == k, "peek consumes nothing"); auto d = F::decode(q); sym_check(bool(d) && eq(frame_of(d.value()), r) && d.value() == f, "decoding gives the encoded frame back"); sym_check(q.size() == 0, "the whole encoding is consumed"); }, sym_param("kinds", 3)); sym_reach("roundtrip"); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(frame_equality) { // two frames are equal exactly when type and fields are
  rf r[2] = {}; for (auto &q : r) { size_t t = pick(8, "type"); q.type = TYPES[t]; q.size = t < 2 || t == 5 ? sym_int(8, "size") : 0; if (t >= 2 && t != 4) q.a = sym_int(8, "id"); if (t == 2) { q.b = sym_int(8, "dependency"); q.w = (uint8_t) sym_int(1, "weight"); q.x = (uint8_t) sym_int(1, "types") & 15; } if (t == 4) for (int i = 0; i < 4; i++) q.set[i] = sym_int(8, "setting"); }
  F f = make(r[0]), g = make(r[1]); bool e = eq(r[0], r[1]); sym_check((f == g) == e && (f != g) == !e && (g == f) == e, "frames are equal exactly when their fields are"); sym_trace(e); if (e) sym_reach("equal"); else sym_reach("different"); }
// the n bytes at a as a frame, against the reference decoder
static void frame_is(const uint8_t *a, size_t n) {
    cur c{a, n}; rf w; bool loose; st s = ref_frame(c, w, loose);
    each_seq(a, n, [&](auto &q) { auto p = F::peek(q); sym_check(q.size() == n, "peek consumes nothing"); auto r = F::decode(q); sym_trace(bool(r)); sym_trace(q.size());
      if (s == OK) { sym_check(bool(r), "a well-formed frame is decoded"); rf g = frame_of(r.value()); sym_check(eq(g, w), "the decoded frame has the encoded fields"); trace(g); rest_is(q, a, n, c.i, "skipped frames and the decoded frame are consumed, nothing else"); sym_check(bool(p) && p.value() == T(r.value()), "peek reports the type decode returns"); sym_reach("frame"); }
      else { sym_check(!r, "truncated or malformed bytes give no frame"); rest_is(q, a, n, c.i, "a failed decode consumes only complete unknown frames");
        if (s == MORE && !loose) { sym_check(r.error() == h3::error::incomplete, "a truncated frame is incomplete"); sym_reach("incomplete"); } if (s == BAD) { sym_check(r.error() == h3::error::malformed_frame, "a frame whose length contradicts its content is malformed"); sym_reach("malformed"); } } }, sym_param("kinds", 3)); }
ENTRY(frame_decode) {
  uint64_t live = sym_live(); { size_t n = sym_param("n", 4); uint8_t a[64]; sym_fill(a, n, "bytes"); uint64_t t0 = sym_param("first", 256); if (t0 < 256 && n) sym_assume(a[0] == t0); else if (t0 == 256 && n) { for (uint64_t k : TYPES) sym_assume(a[0] != k); }
    frame_is(a, n); }
  sym_check(sym_live() == live, "no block leaks"); }
// frames of one type with every integer in each of the four widths, a length that is off by one or right, then the start of more bytes or a cut
static size_t put_wide(uint8_t *d, uint64_t v, unsigned width) { size_t k = (size_t) 1 << width; for (size_t i = 0; i < k; i++) d[i] = (uint8_t) (v >> (8 * (k - 1 - i))); d[0] |= (uint8_t) (width << 6); return k; }
static size_t put_any(uint8_t *d, unsigned width) { size_t k = (size_t) 1 << width; sym_fill(d, k, "integer"); sym_assume(d[0] >> 6 == width); return k; }
ENTRY(frame_forms) {
  uint64_t live = sym_live(); { uint64_t t = sym_param("type", 2); bool cut = sym_param("cut", 0); uint8_t a[160], p[96]; size_t k = 0, n = 0; unsigned widths = (unsigned) sym_param("widths", 3), outer = (unsigned) sym_param("outer", 3);
    auto field = [&] { k += put_any(p + k, (unsigned) pick(widths, "width")); };
    if (t == 2) { p[k++] = (uint8_t) sym_int(1, "types"); field(); field(); p[k++] = (uint8_t) sym_int(1, "weight"); }
    else if (t == 4) { const uint64_t id[] = {6, 9, 1, 7, 2}; size_t pairs = sym_param("pairs", 1); uint64_t fixed = sym_param("id", 99); for (size_t i = 0; i < pairs; i++) { size_t s = i == 0 && fixed != 99 ? fixed : pick(4, "setting"); unsigned w = (unsigned) pick(sym_param("idw", 3), "width of the identifier"); if (s == 4) { uint64_t v = sym_int(8, "unknown setting"); sym_assume(v >> ((8u << w) - 2) == 0 && v != 6 && v != 9 && v != 1 && v != 7); k += put_wide(p + k, v, w); } else k += put_wide(p + k, id[s], w); field(); } }
    else if (t != 0 && t != 1) field();
    uint64_t len; bool free = t < 2; if (!free) { len = k + pick(2, "announced length") - 1; if (t == 5) len += (uint64_t) pick(1, "promised headers") * 70; }
    n = put_wide(a, t, cut ? 0 : (unsigned) pick(outer, "width of the type")); unsigned lw = cut && !free ? 0 : (unsigned) pick(outer, "width of the length"); if (free) n += put_any(a + n, lw); else { if (!lw && len > 63) return; n += put_wide(a + n, len, lw); } for (size_t i = 0; i < k; i++) a[n++] = p[i];
    if (cut) n = pick(n, "cut"); else { size_t m = pick(1, "more") * 2; sym_fill(a + n, m, "more"); n += m; }
    frame_is(a, n); }
  sym_check(sym_live() == live, "no block leaks"); }
ENTRY(frame_skip) { // any number of unknown frames before a known one
  size_t k = pick(sym_param("frames", 3), "unknown frames"); uint8_t a[256]; size_t n = 0;
  for (size_t i = 0; i < k; i++) { if (sym_param("wide", 0)) { const size_t lens[] = {0, 1, 63, 64, 70}; unsigned w = (unsigned) pick(3, "width of the type"); uint64_t t = sym_int(8, "unknown type"); sym_assume(t >> ((8u << w) - 2) == 0 && !known(t)); n += put_wide(a + n, t, w); size_t len = lens[pick(4, "unknown length")]; unsigned lw = (unsigned) pick(3, "width of the length"); if (!lw && len > 63) return; n += put_wide(a + n, len, lw); sym_fill(a + n, len, "unknown payload"); n += len; continue; }
    uint64_t t = sym_int(8, "unknown type"); sym_assume(fits(t) && !known(t)); n += ref_varint_put(a + n, t); n = sym_concrete(n); size_t len = pick(2, "unknown length"); n += ref_varint_put(a + n, len); sym_fill(a + n, len, "unknown payload"); n += len; }
  size_t at = n; uint64_t v = sym_int(8, "id"); sym_assume(fits(v)); size_t ti = sym_param("known", 9); if (ti > 8) ti = pick(8, "type"); rf r = {}; r.type = TYPES[ti]; if (ti < 2) r.size = v; else if (ti == 4) { r.set[0] = v; r.set[2] = 3; } else r.a = v; size_t m; if (!put(r, a + n, m)) return; n += m;
  size_t miss = 0; if (sym_param("wide", 0)) { const size_t d[] = {0, 1, n - at, n - at + 1, n / 2}; miss = d[pick(4, "missing")]; if (miss > n) return; } else miss = pick(n, "bytes missing"); size_t have = n - miss;
  each_seq(a, have, [&](auto &q) { auto p = F::peek(q); auto d = F::decode(q); if (p) sym_check(p.value() == (T) r.type, "peek looks past unknown frames"); sym_trace(bool(p)); sym_trace(bool(d));
    if (have == n) { sym_check(bool(p), "peek finds the frame behind unknown frames"); sym_check(bool(d) && eq(frame_of(d.value()), r) && q.size() == 0, "the frame behind unknown frames is decoded"); sym_reach("found"); }
    else { sym_check(!d && d.error() == h3::error::incomplete, "a truncated frame is incomplete"); sym_check(q.size() <= have && q.size() + at >= have, "only whole unknown frames are consumed"); if (!p) sym_check(p.error() == h3::error::incomplete, "peek on a truncated frame is incomplete"); sym_reach("truncated"); } }, sym_param("kinds", 1)); }

ENTRY(frame_skip_long) { // a long unknown frame before a known one, in a buffer or a chain of several pieces
  uint64_t l = sym_live(); { size_t len = sym_param("len", 70000); uint8_t *a = new uint8_t[len + 64]; uint64_t t = sym_int(8, "unknown type"); unsigned w = (unsigned) pick(3, "width of the type"); sym_assume(t >> ((8u << w) - 2) == 0 && !known(t)); size_t n = put_wide(a, t, w); n += ref_varint_put(a + n, len); for (size_t i = 0; i < len; i++) a[n++] = (uint8_t) (i * 7 + i / 251); if (len) a[n - 1 - len / 3] = (uint8_t) sym_int(1, "unknown payload");
    size_t at = n; uint64_t v = sym_int(8, "id"); sym_assume(fits(v)); rf r = {}; r.type = TYPES[sym_param("known", 6)]; if (sym_param("known", 6) < 2) r.size = v; else r.a = v; size_t m; if (!put(r, a + n, m)) return; n += m; const size_t d[] = {0, 1, n - at, n - at + 1, n / 2}; size_t have = n - d[pick(4, "missing")];
    auto with = [&](auto &q) { auto p = F::peek(q); auto g = F::decode(q); if (p) sym_check(p.value() == (T) r.type, "peek looks past unknown frames"); sym_trace(bool(p)); sym_trace(bool(g));
      if (have == n) { sym_check(bool(p), "peek finds the frame behind unknown frames"); sym_check(bool(g) && eq(frame_of(g.value()), r) && q.size() == 0, "the frame behind unknown frames is decoded"); sym_reach("found"); }
      else { sym_check(!g && g.error() == h3::error::incomplete, "a truncated frame is incomplete"); sym_check(q.size() <= have && q.size() + at >= have, "only whole unknown frames are consumed"); if (!p) sym_check(p.error() == h3::error::incomplete, "peek on a truncated frame is incomplete"); sym_reach("truncated"); } };
    if (pick(1, "representation") == 0) { base::buffer b(a, have); with(b); } else { base::buffers c; size_t k = 1 + have / 5; for (size_t i = 0; i < have; i += k) c.push(base::buffer(a + i, have - i < k ? have - i : k)); with(c); } delete[] a; }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(settings_many) { // SETTINGS of many pairs, the known ones among them, announced right or off by one, whole, cut or followed by more
  uint64_t l = sym_live(); { size_t pairs = sym_param("pairs", 100); uint8_t *a = new uint8_t[pairs * 16 + 64], *p = new uint8_t[pairs * 16 + 64]; size_t k = 0, n = 0; const uint64_t id[] = {6, 9, 1, 7}; uint64_t v[4]; for (auto &x : v) { x = sym_int(8, "value"); sym_assume(fits(x)); } size_t order = pick(3, "order"), ends = 0;
    for (size_t i = 0; i < pairs; i++) { size_t j = 9; for (size_t q = 0; q < 4; q++) if (i == (q + order) % 4 * (pairs - 1) / 3) j = (q * 3 + order) % 4; if (j < 4) { k += ref_varint_put(p + k, id[j]); k += put_wide(p + k, v[j], 3); } else { uint64_t u = 100 + i * 77777; k += ref_varint_put(p + k, u); uint64_t w = i * 131; if (i % 5 == 4) w = w << 32 | i; k += ref_varint_put(p + k, w); } if (i == pairs / 2) ends = k; }
    size_t d = pick(2, "announced length"); uint64_t len = k + d - 1; n = ref_varint_put(a, 4); n += ref_varint_put(a + n, len); size_t head = n; for (size_t i = 0; i < k; i++) a[n++] = p[i]; size_t more = d == 2 ? 3 : 0; for (size_t i = 0; i < more; i++) a[n++] = (uint8_t) (0x21 + i); const size_t miss[] = {0, 1, k / 2, n - head - ends}; size_t have = n - miss[pick(3, "missing")]; bool whole = have >= head + k;
    auto with = [&](auto &q) { auto f = F::decode(q); sym_trace(bool(f)); if (f && have == n && d == 1) { rf r = frame_of(f.value()); sym_check(r.type == 4 && r.set[0] == v[0] && r.set[1] == v[1] && r.set[2] == v[2] && r.set[3] == v[3] && q.size() == 0, "every known setting is found among the unknown ones"); sym_reach("frame"); }
      else { sym_check(!f, "SETTINGS that are cut short or announced wrongly are refused"); if (f) return; if (whole && d != 1) { sym_check(f.error() == h3::error::malformed_frame || (d == 2 && f.error() == h3::error::incomplete), "a length that splits a pair is malformed"); sym_reach("malformed"); } else if (d == 1) { sym_check(f.error() == h3::error::incomplete, "cut SETTINGS are incomplete"); sym_reach("incomplete"); } sym_check(q.size() == have, "nothing is consumed"); } sym_check(!(have == n && d == 1) || bool(f), "SETTINGS of any number of pairs are decoded"); };
    if (pick(1, "representation") == 0) { base::buffer b(a, have); with(b); } else { base::buffers c; size_t s = 1 + have / 7; for (size_t i = 0; i < have; i += s) c.push(base::buffer(a + i, have - i < s ? have - i : s)); with(c); } delete[] a; delete[] p; }
  sym_check(sym_live() == l, "no block leaks"); }
