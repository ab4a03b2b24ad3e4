// QPACK: Huffman code, string literals, field lines, static table (RFC 7541 section 5.2 and appendix B, RFC 9204 section 4.5 and appendix A).
#define TEXT_MAX 1100
#include "harness.h"
#include "seq.h"
#include <bnl/base/string_view.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/result.hpp>
namespace qp = bnl::http3::qpack; namespace h3 = bnl::http3;
static base::string_view sv(const uint8_t *p, size_t n) { return base::string_view((const char *) p, n); }
static bool text_is(const base::string &s, const text &t) { return s.size() == t.n && sym_eqmem(s.data(), t.b, t.n); }
// reference Huffman encoder
static size_t ref_huff_put(uint8_t *d, const uint8_t *s, size_t n) {
  size_t bit = 0, total = (ref_huff_bits(s, n) + 7) / 8; total = sym_concrete(total); for (size_t i = 0; i < total; i++) d[i] = 0;
  for (size_t i = 0; i < n; i++) { size_t len = sym_concrete(rfc_huffman[s[i]].len); uint64_t code = rfc_huffman[s[i]].code; size_t byte = bit / 8, sh = 40 - len - bit % 8; uint64_t w = code << sh; for (size_t k = 0; k < 5; k++) if (byte + k < total) d[byte + k] |= (uint8_t) (w >> (32 - 8 * k)); bit += len; }
  if (bit % 8) d[total - 1] |= (uint8_t) (0xff >> bit % 8); return total; }
ENTRY(huffman_encode) {
  uint64_t l = sym_live(); { size_t n = sym_param("n", 2); uint8_t s[8], x[40], b[40]; sym_fill(s, n, "string"); if (sym_param("cls", 0)) { size_t c = sym_param("cls", 0); uint64_t len = rfc_huffman[s[0]].len; sym_assume(c == 1 ? len < 9 : c == 2 ? len >= 9 && len < 22 : c == 3 ? len >= 22 && len < 27 : len >= 27); }
    size_t k = ref_huff_put(x, s, n); for (auto &y : b) y = 0xee; size_t r = qp::huffman::encoded_size(sv(s, n)); sym_check(r == k, "the size is that of the RFC encoding"); size_t e = qp::huffman::encode(b, sv(s, n)); sym_check(e == k, "the size written is the announced one");
    for (size_t i = 0; i < k; i++) sym_check(b[i] == x[i], "the bytes are the RFC encoding"); for (size_t i = k; i < 40; i++) sym_check(b[i] == 0xee, "nothing is written beyond the announced size"); base::buffer o = qp::huffman::encode(sv(s, n)); sym_check(o.size() == k && (!k || sym_eqmem(o.data(), x, k)), "the buffer holds the encoding"); for (size_t i = 0; i < k; i++) sym_trace(b[i]);
    if (sym_param("back", 1)) { auto d = qp::huffman::decode(o, k); sym_check(bool(d) && d.value().size() == n && sym_eqmem(d.value().data(), s, n) && o.empty(), "decodes to the string"); } sym_reach("roundtrip"); }
  sym_check(sym_live() == l, "no block leaks"); }
static huff H;
ENTRY(huffman_decode) { // after some leading 0xff bytes, all byte strings
  huff_init(H); uint64_t l = sym_live(); { size_t ones = sym_param("ones", 0), n = ones + sym_param("n", 2), extra = sym_param("extra", 1); uint8_t a[16]; for (size_t i = 0; i < ones; i++) a[i] = 0xff; sym_fill(a + ones, n - ones + extra, "bytes"); text t; 
    uint64_t lo = sym_param("lo", 0), hi = sym_param("hi", 255); if (n > ones) sym_assume(a[ones] >= lo && a[ones] <= hi);
    st s = ref_huff(H, a, n, t.b, t.n); 
    each_seq(a, n + extra, [&](auto &q) { auto r = qp::huffman::decode(q, n); sym_trace(bool(r)); if (s == OK) { sym_check(bool(r) && text_is(r.value(), t), "a well-formed Huffman string decodes to its text"); rest_is(q, a, n + extra, n, "exactly the string is consumed"); for (size_t i = 0; i < t.n; i++) sym_trace((uint8_t) r.value()[i]); sym_reach("text"); } else { sym_check(!r && r.error() == h3::error::qpack_decompression_failed, "bad padding or EOS is rejected"); rest_is(q, a, n + extra, 0, "a failed decode consumes nothing"); sym_reach("rejected"); } auto m = qp::huffman::decode(q, q.size() + 1); sym_check(!m && m.error() == h3::error::incomplete, "fewer bytes than announced is incomplete"); }, sym_param("kinds", 0)); }
  sym_check(sym_live() == l, "no block leaks"); }
// a character, a run of one bits (30 of them are EOS) at every offset, and any bits after it
ENTRY(huffman_run) {
  huff_init(H); uint64_t l = sym_live(); { size_t len = sym_param("len", 5), ones = sym_param("ones", 30), more = sym_param("more", 0), bits = 0; uint8_t a[16] = {0}; auto put_bits = [&](uint32_t c, size_t m) { for (size_t j = m; j-- > 0; bits++) if (c >> j & 1) a[bits / 8] |= (uint8_t) (1 << (7 - bits % 8)); }; for (unsigned s = 0; s < 256; s++) if (rfc_huffman[s].len == len) { put_bits(rfc_huffman[s].code, len); break; } for (size_t i = 0; i < ones; i++) put_bits(1, 1);
    if (bits % 8) { a[bits / 8] |= (uint8_t) (sym_int(1, "rest of the byte") & (0xffu >> bits % 8)); bits += 8 - bits % 8; } size_t n = bits / 8; sym_fill(a + n, more + 1, "more"); n += more; text t; st s = ref_huff(H, a, n, t.b, t.n);
    each_owner(a, n + 1, [&](auto &q) { auto r = qp::huffman::decode(q, n); sym_trace(bool(r)); if (s == OK) { sym_check(bool(r) && text_is(r.value(), t), "a well-formed Huffman string decodes to its text"); rest_is(q, a, n + 1, n, "exactly the string is consumed"); sym_reach("text"); } else { sym_check(!r && r.error() == h3::error::qpack_decompression_failed, "bad padding or EOS is rejected"); rest_is(q, a, n + 1, 0, "a failed decode consumes nothing"); sym_reach("rejected"); } }, 0); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(literal_encode) {
  huff_init(H); uint64_t l = sym_live(); { static const unsigned P[2] = {3, 7}; unsigned prefix = P[pick(1, "prefix")]; size_t n = sym_param("n", 3); uint8_t s[640]; sym_fill(s, n, "string"); size_t same = sym_param("rep", 0); for (size_t i = n; i < same; i++) s[i] = s[i % n]; if (same) n = same;
    uint8_t flags = (uint8_t) sym_int(1, "bits above") & (uint8_t) ~((2u << prefix) - 1); uint8_t x[660] = {0}, b[660]; for (auto &y : b) y = 0xee; b[0] = flags; size_t hb = (ref_huff_bits(s, n) + 7) / 8; hb = sym_concrete(hb); bool huffman = hb < n; size_t k = ref_prefix_put(x, huffman ? hb : n, prefix, flags | (uint8_t) (huffman ? 1u << prefix : 0)); if (huffman) k += ref_huff_put(x + k, s, n); else for (size_t i = 0; i < n; i++) x[k++] = s[i];
    size_t r = qp::literal::encoded_size(sv(s, n), (uint8_t) prefix), e = qp::literal::encode(b, sv(s, n), (uint8_t) prefix); sym_check(r == k && e == k, "the announced size is the number of bytes written"); for (size_t i = 0; i < k; i++) { sym_check(b[i] == x[i], "the shorter of the plain and the Huffman form is written"); sym_trace(b[i]); } sym_check(b[k] == 0xee, "nothing is written beyond the announced size"); if (huffman) sym_reach("huffman"); else sym_reach("plain");
    base::buffer o = qp::literal::encode(sv(s, n), (uint8_t) prefix); sym_check(o.size() == k && (o[0] & ((2u << prefix) - 1)) == (x[0] & ((2u << prefix) - 1)) && (o[0] & ~((2u << prefix) - 1)) == 0 && sym_eqmem(o.data() + 1, x + 1, k - 1), "the buffer holds the literal"); if (sym_param("back", 1)) { auto d = qp::literal::decode(o, (uint8_t) prefix); sym_check(bool(d) && d.value().size() == n && sym_eqmem(d.value().data(), s, n) && o.empty(), "decodes to the string"); } }
  sym_check(sym_live() == l, "no block leaks"); }
// long strings of mixed bytes, one of them symbolic
static uint8_t mixed_byte(size_t kind, size_t i) { size_t v = i * 73 + i / 256; return (uint8_t) (kind == 0 ? v : kind == 1 ? ' ' + v % 95 : "0123456789abcdefghijklmnopqrstuvwxyz-./=%"[v % 41]); }
struct mixed { size_t n = sym_param("n", 300), kind = sym_param("kind", 0), len = sym_param("len", 8), where = n - 1 - n / 3, bits = 0, hb = 0; uint8_t *s = new uint8_t[n + 1], *h = new uint8_t[n * 4 + 8];
  mixed() { for (size_t i = 0; i < n; i++) s[i] = mixed_byte(kind, i); s[where] = (uint8_t) sym_int(1, "byte"); sym_assume(rfc_huffman[s[where]].len == len); for (size_t i = 0; i < n * 4 + 8; i++) h[i] = 0;
    for (size_t i = 0; i < n; i++) { unsigned m = i == where ? (unsigned) len : rfc_huffman[s[i]].len; uint32_t c = rfc_huffman[s[i]].code; for (unsigned j = m; j-- > 0; bits++) h[bits / 8] |= (uint8_t) ((c >> j & 1) << (7 - bits % 8)); } hb = (bits + 7) / 8; for (size_t b = bits; b % 8; b++) h[b / 8] |= (uint8_t) (1 << (7 - b % 8)); }
  ~mixed() { delete[] s; delete[] h; } };
ENTRY(huffman_mixed) {
  huff_init(H); uint64_t l = sym_live(); { mixed m; size_t n = m.n, k = m.hb; uint8_t *b = new uint8_t[k + 9]; for (size_t i = 0; i < k + 9; i++) b[i] = 0xee; size_t r = qp::huffman::encoded_size(sv(m.s, n)); sym_check(r == k, "the size is that of the RFC encoding"); size_t e = qp::huffman::encode(b, sv(m.s, n)); sym_check(e == k && sym_eqmem(b, m.h, k), "the bytes are the RFC encoding"); for (size_t i = k; i < k + 9; i++) sym_check(b[i] == 0xee, "nothing is written beyond the announced size"); base::buffer o = qp::huffman::encode(sv(m.s, n)); sym_check(o.size() == k && sym_eqmem(o.data(), m.h, k), "the buffer holds the encoding"); delete[] b;
    auto d = qp::huffman::decode(o, k); sym_check(bool(d) && d.value().size() == n && sym_eqmem(d.value().data(), m.s, n) && o.empty(), "decodes to the string");
    size_t bad = pick(2, "padding"), size = k + (bad == 1); if (bad == 2 && m.bits % 8 == 0) return; base::buffers q; for (size_t i = 0; i < size; i += 1 + size / 5) { base::buffer c(size - i < 1 + size / 5 ? size - i : 1 + size / 5); for (size_t j = 0; j < c.size(); j++) { size_t at = i + j; c[j] = at == k ? 0xff : m.h[at]; if (bad == 2 && at + 1 == k) c[j] ^= 1; } q.push(std::move(c)); }
    auto c = qp::huffman::decode(q, size); if (bad) { sym_check(!c && c.error() == h3::error::qpack_decompression_failed && q.size() == size, "bad padding is rejected"); sym_reach("rejected"); } else { sym_check(bool(c) && c.value().size() == n && sym_eqmem(c.value().data(), m.s, n) && q.empty(), "decodes to the string"); sym_reach("text"); } sym_trace(k); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(literal_mixed) {
  huff_init(H); uint64_t l = sym_live(); { mixed m; size_t n = m.n; auto prefix = (uint8_t) (flip("prefix") ? 3 : 7); uint8_t *s = m.s; size_t cap = n * 4 + 40; uint8_t *x = new uint8_t[cap], *b = new uint8_t[cap]; for (size_t i = 0; i < cap; i++) { x[i] = 0; b[i] = 0xee; } b[0] = 0; size_t hb = m.hb; bool huffman = hb < n; size_t k = ref_prefix_put(x, huffman ? hb : n, prefix, (uint8_t) (huffman ? 1u << prefix : 0)); for (size_t i = 0; i < (huffman ? hb : n); i++) x[k++] = huffman ? m.h[i] : s[i];
    size_t r = qp::literal::encoded_size(sv(s, n), prefix), e = qp::literal::encode(b, sv(s, n), prefix); sym_check(r == k && e == k, "the announced size is the number of bytes written"); if (r != k) return; sym_check(sym_eqmem(b, x, k), "the shorter of the plain and the Huffman form is written"); sym_check(b[k] == 0xee, "nothing is written beyond the announced size"); sym_reach(huffman ? "huffman" : "plain");
    { base::buffer o(k); for (size_t i = 0; i < k; i++) o[i] = x[i]; auto d = qp::literal::decode(o, prefix); sym_check(bool(d) && d.value().size() == n && sym_eqmem(d.value().data(), s, n) && o.empty(), "decodes to the string"); }
    { base::buffers q; for (size_t i = 0; i < k; i += 1 + k / 5) { base::buffer o(k - i < 1 + k / 5 ? k - i : 1 + k / 5); for (size_t j = 0; j < o.size(); j++) o[j] = x[i + j]; q.push(std::move(o)); } auto d = qp::literal::decode(q, prefix); sym_check(bool(d) && d.value().size() == n && sym_eqmem(d.value().data(), s, n) && q.empty(), "decodes to the string"); }
    delete[] x; delete[] b; sym_trace(k); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(literal_decode) {
  huff_init(H); uint64_t l = sym_live(); { unsigned prefix = (unsigned) sym_param("prefix", 7); size_t n = sym_param("n", 3); uint8_t a[32]; sym_fill(a, n, "bytes"); cur c{a, n}; text t; if (n && sym_param("huff", 2) < 2) sym_assume((a[0] >> prefix & 1) == sym_param("huff", 2)); st s = ref_literal(H, c, prefix, t);
    each_seq(a, n, [&](auto &q) { auto r = qp::literal::decode(q, (uint8_t) prefix); sym_trace(bool(r)); if (s == OK) { sym_check(bool(r) && text_is(r.value(), t), "a literal decodes to its text"); rest_is(q, a, n, c.i, "exactly the literal is consumed"); sym_reach("text"); } else { sym_check(!r, "no text from a truncated or malformed literal"); rest_is(q, a, n, 0, "a failed decode consumes nothing"); if (s == MORE) { sym_check(r.error() == h3::error::incomplete, "a truncated literal is incomplete"); sym_reach("incomplete"); } else { sym_check(r.error() == h3::error::qpack_decompression_failed, "a malformed literal is rejected"); sym_reach("rejected"); } } }, sym_param("kinds", 1)); }
  sym_check(sym_live() == l, "no block leaks"); }

// a literal of the given length, whole, followed by more bytes or cut short, its length with or without padding
static size_t put_long(uint8_t *d, unsigned prefix, uint8_t flags, uint64_t v, unsigned pad) { // RFC 7541 5.1 with superfluous zero continuation bytes
  size_t k = ref_prefix_put(d, v, prefix, flags); if (k > 1) for (; pad; pad--) { d[k - 1] |= 128; d[k++] = 0; } return k; }
static size_t put_text(uint8_t *d, size_t n, bool huffman) { // n bytes of payload, symbolic in three places (Huffman: in one); false when there is no Huffman string of that size
  if (!huffman) { for (size_t i = 0; i < n; i++) d[i] = (uint8_t) ((i * 5 + 1) | 32); for (size_t i : {(size_t) 0, n / 2, n - 1}) if (i < n) d[i] = (uint8_t) sym_int(1, "text"); return n; }
  uint8_t s[1100]; size_t m = 0, bits = 0; while ((bits + 5 + 7) / 8 <= n) { s[m++] = 'a'; bits += 5; } if (m) { s[m / 2] = (uint8_t) sym_int(1, "text"); sym_assume(rfc_huffman[s[m / 2]].len == 5); } ref_huff_put(d, s, m); return n; }
ENTRY(literal_long) {
  huff_init(H); uint64_t l = sym_live(); { unsigned prefix = (unsigned) sym_param("prefix", 7); size_t len = sym_param("len", 127); bool huffman = flip("Huffman"); uint8_t a[700]; size_t n = put_long(a, prefix, (uint8_t) ((uint8_t) sym_int(1, "bits above") & ~((2u << prefix) - 1)) | (uint8_t) (huffman << prefix), len, (unsigned) pick(2, "padding")); n += put_text(a + n, len, huffman);
    size_t more = pick(3, "more"); if (more == 1) a[n++] = (uint8_t) sym_int(1, "next"); else if (more == 2) n--; else if (more == 3) n = n > 5 ? 5 : n;
    cur c{a, n}; text t; st s = ref_literal(H, c, prefix, t);
    each_seq(a, n, [&](auto &q) { auto r = qp::literal::decode(q, (uint8_t) prefix); sym_trace(bool(r)); if (s == OK) { sym_check(bool(r) && text_is(r.value(), t), "a literal decodes to its text"); rest_is(q, a, n, c.i, "exactly the literal is consumed"); sym_reach("text"); } else { sym_check(!r, "no text from a truncated or malformed literal"); rest_is(q, a, n, 0, "a failed decode consumes nothing"); if (s == MORE) { sym_check(r.error() == h3::error::incomplete, "a truncated literal is incomplete"); sym_reach("incomplete"); } } }, sym_param("kinds", 1)); }
  sym_check(sym_live() == l, "no block leaks"); }

// ---------------------------------------------------------------- field lines
static bool lower(const uint8_t *p, size_t n) { bool up = false; for (size_t i = 0; i < n; i++) up |= p[i] >= 'A' && p[i] <= 'Z'; return !up; }
// the encoder's output for one header must mean that header to an independent decoder
static void encode_one(qp::encoder &e, bool first, const uint8_t *name, size_t nn, const uint8_t *value, size_t vn, bool own) {
  h3::header_view h(sv(name, nn), sv(value, vn)); uint64_t before = e.count(); auto s = e.encoded_size(h); bool ok = lower(name, nn);
  if (!ok) { auto o = e.encode(h); sym_check(!s && !o && s.error() == h3::error::malformed_header && o.error() == h3::error::malformed_header, "an upper-case name is refused"); sym_check(e.count() == before, "a refused header is not counted"); sym_reach("refused"); return; }
  sym_check(bool(s), "a lower-case header is accepted"); auto o = e.encode(h); sym_check(bool(o) && o.value().size() == s.value(), "the announced size is the number of bytes"); sym_check(e.count() == before + s.value(), "the running count is the number of bytes produced");
  base::buffer &b = o.value(); cur c{b.data(), b.size()}; for (size_t i = 0; i < b.size(); i++) sym_trace(b[i]);
  if (first) { sym_check(b.size() >= 2 && b[0] == 0 && b[1] == 0, "the block starts with the two-byte prefix"); c.i = 2; }
  text n, v; sym_check(ref_field(H, c, n, v) == OK && c.left() == 0, "the bytes are one field line"); sym_check(n.n == nn && v.n == vn && sym_eqmem(n.b, name, nn) && sym_eqmem(v.b, value, vn), "the field line means the given header"); sym_reach("encoded");
  if (own) { qp::decoder d; if (!first) { base::buffer z(2); z.data()[0] = z.data()[1] = 0; b = base::buffer::concat(z, b); } size_t total = b.size(); auto r = d.decode(b); sym_check(bool(r) && b.empty(), "the own decoder accepts the line"); sym_check(r.value().name().size() == nn && r.value().value().size() == vn && sym_eqmem(r.value().name().data(), name, nn) && sym_eqmem(r.value().value().data(), value, vn), "the own decoder gives the header back"); sym_check(d.count() == total, "the decoder counts the bytes"); } }
ENTRY(field_encode) {
  huff_init(H); uint64_t l = sym_live(); { size_t nn = sym_param("name", 2), vn = sym_param("value", 1); uint8_t n[640], v[640]; sym_fill(n, nn, "name"); sym_fill(v, vn, "value"); size_t nrep = sym_param("nrep", 0), vrep = sym_param("vrep", 0), mix = sym_param("mix", 0); for (size_t i = nn; i < nrep; i++) n[i] = mix ? mixed_byte(2, i) : nn ? n[i % nn] : 'n'; if (nrep) nn = nrep; for (size_t i = vn; i < vrep; i++) v[i] = mix ? mixed_byte(mix - 1, i) : vn ? v[i % vn] : 'v'; if (vrep) vn = vrep;
    qp::encoder e; size_t second = sym_param("second", 0); if (second) { if (second == 3) sym_check(!e.encode(h3::header_view("Bad", "x")) && e.count() == 0, "a refused header"); else { auto o = e.encode(h3::header_view(":path", "/")); sym_check(bool(o) && o.value().size() == 3, "first line"); } } if (second == 2) { auto o = e.encode(h3::header_view("Bad", "x")); sym_check(!o, "a refused header"); auto p = e.encode(h3::header_view(":method", "GET")); sym_check(bool(p) && p.value().size() == 1 && e.count() == 4, "second line"); } encode_one(e, !second || second == 3, n, nn, v, vn, true); }
  sym_check(sym_live() == l, "no block leaks"); }
// every static entry, exactly, and with one byte changed or one missing
static size_t len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
ENTRY(table_encode) {
  huff_init(H); uint64_t l = sym_live(); { size_t i = sym_param("from", 0) + pick(sym_param("count", 1) - 1, "entry"); if (i > 98) return; const rfc_entry &t = rfc_static[i]; text n, v; put(n, t.name); put(v, t.value); 
    size_t mode = sym_param("mode", 0); // 0 exact, 1 name byte changed, 2 value byte changed, 3 name truncated, 4 value truncated, 5 value extended, 6 name extended
    if (mode == 1) n.b[pick(n.n - 1, "position")] = (uint8_t) sym_int(1, "byte"); if (mode == 2) { if (!v.n) return; v.b[pick(v.n - 1, "position")] = (uint8_t) sym_int(1, "byte"); } if (mode == 3) n.n = pick(n.n - 1, "name length"); if (mode == 4) { if (!v.n) return; v.n = pick(v.n - 1, "value length"); } if (mode == 5) v.b[v.n++] = (uint8_t) sym_int(1, "byte"); if (mode == 6) n.b[n.n++] = (uint8_t) sym_int(1, "byte");
    qp::encoder e; encode_one(e, true, n.b, n.n, v.b, v.n, true); if (mode == 0) { qp::encoder f; auto o = f.encode(h3::header_view(sv(n.b, n.n), sv(v.b, v.n))); size_t total = o.value().size(); bool unique = t.value[0] != 0; if (unique) sym_check(total <= 2 + 2, "a header in the static table is sent as an index"); } }
  sym_check(sym_live() == l, "no block leaks"); }
// XXH64 of 8 bytes is a bijection: exactly one 8-byte string has a given hash.  Those that collide with a static table string:
static uint64_t inv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static uint64_t rotl(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint64_t unshift(uint64_t h, int s) { uint64_t x = h; for (int i = 0; i < 64 / s + 1; i++) x = h ^ x >> s; return x; }
static uint64_t ref_round(uint64_t a, uint64_t in) { a += in * 0xC2B2AE3D27D4EB4FULL; return rotl(a, 31) * 0x9E3779B185EBCA87ULL; }
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t) p[i] << (8 * i); return v; }
static uint64_t ref_xxh64(const uint8_t *p, size_t n) {
  const uint64_t P1 = 0x9E3779B185EBCA87ULL, P2 = 0xC2B2AE3D27D4EB4FULL, P3 = 0x165667B19E3779F9ULL, P4 = 0x85EBCA77C2B2AE63ULL, P5 = 0x27D4EB2F165667C5ULL; size_t i = 0; uint64_t h = P5;
  if (n >= 32) { uint64_t a[4] = {P1 + P2, P2, 0, (uint64_t) 0 - P1}; for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; k++) a[k] = ref_round(a[k], le(p + i + 8 * k, 8)); h = rotl(a[0], 1) + rotl(a[1], 7) + rotl(a[2], 12) + rotl(a[3], 18); for (int k = 0; k < 4; k++) h = (h ^ ref_round(0, a[k])) * P1 + P4; }
  h += n; for (; i + 8 <= n; i += 8) h = rotl(h ^ ref_round(0, le(p + i, 8)), 27) * P1 + P4; if (i + 4 <= n) { h = rotl(h ^ le(p + i, 4) * P1, 23) * P2 + P3; i += 4; } for (; i < n; i++) h = rotl(h ^ p[i] * P5, 11) * P1;
  h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; return h ^ h >> 32; }
static void preimage(uint64_t h, uint8_t *d) {
  const uint64_t P1 = 0x9E3779B185EBCA87ULL, P2 = 0xC2B2AE3D27D4EB4FULL, P3 = 0x165667B19E3779F9ULL, P4 = 0x85EBCA77C2B2AE63ULL, P5 = 0x27D4EB2F165667C5ULL;
  h = unshift(h, 32) * inv(P3); h = unshift(h, 29) * inv(P2); h = unshift(h, 33); h = rotl((h - P4) * inv(P1), 64 - 27) ^ (P5 + 8); uint64_t x = rotl(h * inv(P1), 64 - 31) * inv(P2); for (int i = 0; i < 8; i++) d[i] = (uint8_t) (x >> (8 * i)); }
ENTRY(table_collision) {
  huff_init(H); uint64_t l = sym_live(); { size_t i = pick(98, "entry"); const rfc_entry &t = rfc_static[i]; text n, v; put(n, t.name); put(v, t.value); bool name = flip("colliding name"); text &x = name ? n : v; if (!x.n) return; preimage(ref_xxh64(x.b, x.n), x.b); x.n = 8; if (!lower(n.b, n.n)) return; sym_trace(x.b[0]); qp::encoder e; encode_one(e, true, n.b, n.n, v.b, v.n, false); sym_reach("collision"); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(table_decode) { // every index in both index forms, with any prefix bytes
  huff_init(H); uint64_t l = sym_live(); { uint8_t a[16]; sym_fill(a, 2, "prefix"); uint64_t i = sym_int(8, "index"); sym_assume(i <= sym_param("max", 300)); bool name_ref = flip("name reference"); size_t k = 2; size_t vn = 0; if (name_ref) { k += ref_prefix_put(a + k, i, 4, 0x50 | (flip("never indexed") ? 0x20 : 0)); vn = pick(1, "value size"); a[k++] = (uint8_t) vn; sym_fill(a + k, vn, "value"); k += vn; } else k += ref_prefix_put(a + k, i, 6, 0xc0); 
    qp::decoder d; base::buffer b(a, k); auto r = d.decode(b); sym_trace(bool(r));
    if (i < 99) { i = sym_concrete(i); text n, v; put(n, rfc_static[i].name); put(v, rfc_static[i].value); if (name_ref) { v.n = vn; if (vn) v.b[0] = a[k - 1]; } sym_check(bool(r), "every index of the static table is accepted"); sym_check(text_is(base::string(r.value().name().data(), r.value().name().size()), n), "the name is that of the static table"); sym_check(text_is(base::string(r.value().value().data(), r.value().value().size()), v), "the value is the literal, or that of the static table"); sym_check(b.empty() && d.count() == k, "the line is consumed"); sym_reach("entry"); }
    else { sym_check(!r && r.error() == h3::error::qpack_decompression_failed, "an index outside the static table is rejected"); sym_reach("rejected"); } }
  sym_check(sym_live() == l, "no block leaks"); }
// the n bytes at a as the start of a block, against the reference decoder
static void line_is(const uint8_t *a, size_t n) {
    cur c{a, n}; c.i = n < 2 ? n : 2; text nm, v; st s = n < 2 ? MORE : ref_field(H, c, nm, v);
    each_owner(a, n, [&](auto &q) { qp::decoder d; auto r = d.decode(q); sym_trace(bool(r)); sym_trace(q.size());
      if (s == OK) { sym_check(bool(r), "a well-formed line is decoded"); sym_check(text_is(base::string(r.value().name().data(), r.value().name().size()), nm) && text_is(base::string(r.value().value().data(), r.value().value().size()), v), "the decoded header is the encoded one"); rest_is(q, a, n, c.i, "exactly the line is consumed"); sym_check(d.count() == c.i, "the decoder counts the bytes"); sym_reach("header"); }
      else { sym_check(!r, "no header from truncated or malformed bytes"); size_t used = n < 2 ? 0 : 2; rest_is(q, a, n, used, "a failed decode consumes at most the prefix"); sym_check(d.count() == used, "only what was consumed is counted"); if (s == MORE) { sym_check(r.error() == h3::error::incomplete, "a truncated line is incomplete"); sym_reach("incomplete"); } else { sym_check(r.error() != h3::error::incomplete, "a malformed line is rejected"); sym_reach("rejected"); } } }, sym_param("kinds", 1)); }
ENTRY(field_decode) { // arbitrary bytes after the prefix
  huff_init(H); uint64_t l = sym_live(); { size_t n = sym_param("n", 3); uint8_t a[40]; sym_fill(a, n, "bytes"); uint64_t f = sym_param("form", 9); if (n > 2 && f < 9) { uint8_t b = a[2]; sym_assume(f == 0 ? b & 0x80 : f == 1 ? (b & 0xc0) == 0x40 : f == 2 ? (b & 0xe8) == 0x20 : f == 3 ? (b & 0xe8) == 0x28 : (b & 0xe0) == 0); }
    line_is(a, n); }
  sym_check(sym_live() == l, "no block leaks"); }
// one field line of any form with long literals, any index, padded integers, whole or cut, followed by more or not
ENTRY(line_forms) {
  huff_init(H); uint64_t l = sym_live(); { uint8_t a[1400]; sym_fill(a, 2, "prefix"); size_t n = 2; size_t form = sym_param("form", 0); size_t nl = sym_param("name", 7), vl = sym_param("value", 1); unsigned pad = (unsigned) pick(sym_param("pad", 1), "padding"); 
    if (form == 0) { uint64_t i = sym_int(1, "index"); sym_assume(i <= 120); n += put_long(a + n, 6, 0x80 | (flip("static") ? 0x40 : 0), i, pad); n = sym_concrete(n); }
    else if (form == 1) { uint64_t i = sym_int(1, "index"); sym_assume(i <= sym_param("max", 120)); n += put_long(a + n, 4, 0x40 | (flip("never indexed") ? 0x20 : 0) | (flip("static") ? 0x10 : 0), i, pad); n = sym_concrete(n); }
    else if (form == 2) { bool huffman = flip("Huffman name"); n += put_long(a + n, 3, 0x20 | (flip("never indexed") ? 0x10 : 0) | (huffman ? 8 : 0), nl, pad); n += put_text(a + n, nl, huffman); }
    else if (form == 3) n += put_long(a + n, 4, 0x10, pick(20, "post-base index"), pad); else n += put_long(a + n, 3, flip("never indexed") ? 8 : 0, pick(20, "post-base name index"), pad);
    if (form) { bool huffman = flip("Huffman value"); n += put_long(a + n, 7, huffman ? 0x80 : 0, vl, pad); n += put_text(a + n, vl, huffman); }
    size_t more = pick(3, "more"); if (more == 1) a[n++] = (uint8_t) sym_int(1, "next"); else if (more == 2) n--; else if (more == 3) n = n > vl / 2 + 2 ? n - vl / 2 - 1 : n;
    line_is(a, n); }
  sym_check(sym_live() == l, "no block leaks"); }
ENTRY(split_decode) { // a block of own lines, arriving in pieces, decodes as if it arrived at once
  huff_init(H); uint64_t l = sym_live(); { qp::encoder e; base::buffers in; size_t k = sym_param("lines", 2); uint8_t n[4][4], v[4][24]; size_t nn[4], vn[4]; uint8_t all[256]; size_t total = 0;
    for (size_t i = 0; i < k; i++) { size_t kind = pick(2, "kind"); nn[i] = 2; vn[i] = kind == 2 ? 21 : 2; sym_fill(n[i], 2, "name"); for (size_t j = 0; j < 2; j++) sym_assume(n[i][j] >= 'a' && n[i][j] <= 'z'); sym_fill(v[i], 2, "value"); for (size_t j = 2; j < vn[i]; j++) v[i][j] = 'x'; if (kind == 0) for (size_t j = 0; j < 2; j++) sym_assume(rfc_huffman[v[i][j]].len >= 10); else for (size_t j = 0; j < 2; j++) sym_assume(rfc_huffman[v[i][j]].len == 6);
      auto o = e.encode(h3::header_view(sv(n[i], nn[i]), sv(v[i], vn[i]))); sym_check(bool(o), "encoded"); for (size_t j = 0; j < o.value().size(); j++) all[total++] = o.value()[j]; }
    qp::decoder d; base::buffers q; size_t sent = 0, got = 0; size_t c1 = pick(total, "first cut"), c2 = sym_param("cuts", 1) > 1 ? c1 + pick(total - c1, "second cut") : total; const size_t stops[3] = {c1, c2, total};
    for (size_t s : stops) { q.push(base::buffer(all + sent, s - sent)); sent = s; for (;;) { size_t before = q.size(); auto r = d.decode(q); if (!r) { sym_check(r.error() == h3::error::incomplete, "a partial line is incomplete"); break; } sym_check(got < k && q.size() < before, "no more headers than encoded"); sym_check(r.value().name().size() == nn[got] && r.value().value().size() == vn[got] && sym_eqmem(r.value().name().data(), n[got], nn[got]) && sym_eqmem(r.value().value().data(), v[got], vn[got]), "headers come out in order and unchanged"); got++; } sym_check(d.count() + q.size() == sent, "the decoder counts what it consumed"); }
    sym_check(got == k && q.size() == 0 && d.count() == total && e.count() == total, "the whole block is decoded"); sym_trace(got); sym_reach("end"); }
  sym_check(sym_live() == l, "no block leaks"); }
