// XXH64 for the symbolic build.  Concrete inputs go through the algorithm.  Symbolic inputs are first compared
// with each string of the RFC 9204 static table, so that equal strings hash to the real value; a string different from
// all of them gets an unspecified hash outside the set of static hashes (stated as a bound in DESIGN.md).
#include "static_table.h"
#include "sym.h"
#include <cstring>
static const uint64_t P1 = 0x9E3779B185EBCA87ULL, P2 = 0xC2B2AE3D27D4EB4FULL, P3 = 0x165667B19E3779F9ULL, P4 = 0x85EBCA77C2B2AE63ULL, P5 = 0x27D4EB2F165667C5ULL;
static inline uint64_t rotl(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static inline uint64_t rd64(const unsigned char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static inline uint32_t rd32(const unsigned char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static inline uint64_t rnd(uint64_t a, uint64_t in) { a += in * P2; a = rotl(a, 31); return a * P1; }
static inline uint64_t mrg(uint64_t a, uint64_t v) { a ^= rnd(0, v); return a * P1 + P4; }
static uint64_t real(const unsigned char *p, size_t n, uint64_t seed) {
  uint64_t h; const unsigned char *e = p + n;
  if (n >= 32) {
    uint64_t a = seed + P1 + P2, b = seed + P2, c = seed, d = seed - P1;
    do { a = rnd(a, rd64(p)); b = rnd(b, rd64(p + 8)); c = rnd(c, rd64(p + 16)); d = rnd(d, rd64(p + 24)); p += 32; } while (p + 32 <= e);
    h = rotl(a, 1) + rotl(b, 7) + rotl(c, 12) + rotl(d, 18); h = mrg(h, a); h = mrg(h, b); h = mrg(h, c); h = mrg(h, d);
  } else h = seed + P5;
  h += n;
  while (p + 8 <= e) { h ^= rnd(0, rd64(p)); h = rotl(h, 27) * P1 + P4; p += 8; }
  if (p + 4 <= e) { h ^= (uint64_t) rd32(p) * P1; h = rotl(h, 23) * P2 + P3; p += 4; }
  while (p < e) { h ^= (*p++) * P5; h = rotl(h, 11) * P1; }
  h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32; return h; }
extern "C" uint64_t XXH64(const void *input, size_t n, uint64_t seed) noexcept {
  const unsigned char *p = (const unsigned char *) input; bool s = false;
  for (size_t i = 0; i < n; i++) if (sym_is_symbolic(p[i])) s = true;
  if (!s) return real(p, n, seed);
  for (unsigned k = 0; k < 99; k++) for (int v = 0; v < 2; v++) {
    const char *c = v ? rfc_static[k].value : rfc_static[k].name;
    if (strlen(c) == n && sym_eqmem(p, c, n)) return real((const unsigned char *) c, n, seed); }
  return 0x5eed000000000000ULL + n; }
