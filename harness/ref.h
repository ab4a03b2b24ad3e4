// Reference semantics of the wire formats, written from the RFCs, independent of /repo.
#pragma once
#include "sym.h"
#include "huffman_table.h"
#include "static_table.h"
enum st { OK, MORE, BAD };
struct cur { const uint8_t *p; size_t n; size_t i = 0; size_t left() const { return n - i; } };
static inline size_t pick(size_t bound, const char *name) { // any value <= bound, one path each
  if (!bound) return 0; uint64_t k = sym_int(1, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }
static inline size_t pick_big(size_t bound, const char *name) { if (bound < 256) return pick(bound, name); uint64_t k = sym_int(2, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }
static inline bool flip(const char *name) { return pick(1, name) == 1; }

// RFC 9000 section 16
static inline st ref_varint(cur &c, uint64_t &v) {
  if (c.left() < 1) return MORE; size_t k = (size_t) 1 << (c.p[c.i] >> 6); k = (size_t) sym_concrete(k); if (c.left() < k) return MORE;
  v = c.p[c.i] & 0x3f; for (size_t j = 1; j < k; j++) v = v << 8 | c.p[c.i + j]; c.i += k; return OK; }
static inline size_t ref_varint_size(uint64_t v) { return v < 64 ? 1 : v < 16384 ? 2 : v < (1u << 30) ? 4 : 8; }
static inline size_t ref_varint_put(uint8_t *d, uint64_t v) {
  size_t k = ref_varint_size(v); for (size_t i = 0; i < k; i++) d[i] = (uint8_t) (v >> (8 * (k - 1 - i))); d[0] |= k == 1 ? 0 : k == 2 ? 0x40 : k == 4 ? 0x80 : 0xc0; return k; }

// RFC 7541 section 5.1; big reports a value that does not fit in 62 bits or needs more than 9 continuation bytes
static inline st ref_prefix(cur &c, unsigned prefix, uint64_t &v, bool &big) {
  big = false; if (!c.left()) return MORE; unsigned m = (1u << prefix) - 1; v = c.p[c.i++] & m; if (v < m) return OK;
  for (unsigned s = 0;; s += 7) {
    if (!c.left()) return MORE; uint8_t b = c.p[c.i++]; uint64_t d = b & 127;
    if (s >= 63) { big = true; } else { if (s && (d << s) >> s != d) big = true; else { uint64_t t = v + (d << s); if (t < v) big = true; v = t; } }
    if (!(b & 128)) break; }
  if (v >> 62) big = true; return OK; }
static inline size_t ref_prefix_put(uint8_t *d, uint64_t v, unsigned prefix, uint8_t flags) { // d gets the bytes; flags above the prefix
  unsigned m = (1u << prefix) - 1; if (v < m) { d[0] = flags | (uint8_t) v; return 1; }
  d[0] = flags | (uint8_t) m; v -= m; size_t i = 1; while (v >= 128) { d[i++] = (uint8_t) (v | 128); v >>= 7; } d[i++] = (uint8_t) v; return i; }

// RFC 7541 section 5.2 and appendix B
static inline size_t ref_huff_bits(const uint8_t *s, size_t n) { size_t b = 0; for (size_t i = 0; i < n; i++) b += rfc_huffman[s[i]].len; return b; }
// canonical decoder: the appendix-B code assigns, within a length, consecutive codes
struct huff { uint32_t first[31], count[31], off[31]; uint8_t sym[257]; };
static inline void huff_init(huff &h) {
  uint32_t o = 0; for (unsigned l = 0; l < 31; l++) { h.first[l] = 0; h.count[l] = 0; h.off[l] = o; bool any = false; uint32_t lo = 0;
    for (unsigned s = 0; s < 256; s++) if (rfc_huffman[s].len == l && (!any || rfc_huffman[s].code < lo)) { lo = rfc_huffman[s].code; any = true; }
    for (unsigned s = 0; s < 256; s++) if (rfc_huffman[s].len == l) { h.count[l]++; h.sym[o + (rfc_huffman[s].code - lo)] = (uint8_t) s; }
    h.first[l] = lo; o += h.count[l]; } }
// n bytes at p -> out; BAD on an incomplete code longer than 7 bits, padding with a zero bit, or EOS
static inline st ref_huff(const huff &h, const uint8_t *p, size_t n, uint8_t *out, size_t &m) {
  m = 0; uint32_t code = 0; unsigned len = 0; bool ones = true;
  for (size_t i = 0; i < n; i++) for (int k = 7; k >= 0; k--) {
    uint32_t b = (p[i] >> k) & 1; code = code << 1 | b; len++; ones = ones && b; if (len > 30) return BAD;
    if (h.count[len] && code - h.first[len] < h.count[len]) { out[m++] = h.sym[h.off[len] + (code - h.first[len])]; code = 0; len = 0; ones = true; } }
  if (len > 7 || !ones) return BAD; return OK; }

// one string literal with the given prefix; huffman bit above the prefix
#ifndef TEXT_MAX
#define TEXT_MAX 320
#endif
struct text { uint8_t b[TEXT_MAX]; size_t n = 0; };
static inline void put(text &t, const char *s) { t.n = 0; while (s[t.n]) { t.b[t.n] = (uint8_t) s[t.n]; t.n++; } }
static inline st ref_literal(const huff &h, cur &c, unsigned prefix, text &t) {
  if (!c.left()) return MORE; bool huffman = c.p[c.i] >> prefix & 1; uint64_t len; bool big; st r = ref_prefix(c, prefix, len, big); if (r != OK) return r; if (big) return BAD;
  if (len > c.left()) return MORE; size_t k = (size_t) sym_concrete(len);
  if (huffman) { r = ref_huff(h, c.p + c.i, k, t.b, t.n); if (r != OK) return r; } else { t.n = k; for (size_t i = 0; i < k; i++) t.b[i] = c.p[c.i + i]; }
  c.i += k; return OK; }
// one field line (RFC 9204 section 4.5, static table only); BAD for anything a decoder without dynamic table must reject
static inline st ref_field(const huff &h, cur &c, text &name, text &value) {
  if (!c.left()) return MORE; uint8_t b = c.p[c.i]; uint64_t i; bool big; st r;
  if (b & 0x80) { if (!(b & 0x40)) return BAD; r = ref_prefix(c, 6, i, big); if (r != OK) return r; if (big || i >= 99) return BAD; i = sym_concrete(i); put(name, rfc_static[i].name); put(value, rfc_static[i].value); return OK; }
  if (b & 0x40) { if (!(b & 0x10)) return BAD; r = ref_prefix(c, 4, i, big); if (r != OK) return r; if (big || i >= 99) return BAD; i = sym_concrete(i); put(name, rfc_static[i].name); return ref_literal(h, c, 7, value); }
  if (b & 0x20) { r = ref_literal(h, c, 3, name); if (r != OK) return r; r = ref_literal(h, c, 7, value); if (r != OK) return r; for (size_t k = 0; k < name.n; k++) if (name.b[k] >= 'A' && name.b[k] <= 'Z') return BAD; return OK; }
  return BAD; }
