// bnl-base: buffers, buffer chains, lookahead, views, addresses, events.
#include "harness.h"
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffer_view.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/base/string_view.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/http3/settings.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/quic/path.hpp>
#include <utility>
using namespace bnl;
static const size_t MAX = 640;
struct model { uint8_t b[MAX]; size_t n = 0; };
static void copy(uint8_t *d, const uint8_t *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; }
static size_t pick(size_t bound, const char *name) { // any value <= bound
  uint64_t k = sym_int(1, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }
// every boundary value up to n (n + 1 values when n is small)
static size_t pick_size(size_t n) {
  if (n <= 4 || !sym_param("edge", 1)) return pick(n, "size");
  const size_t c[] = {0, 1, 20, 21, n, n - 1, n >= 20 ? n - 20 : 0, n >= 21 ? n - 21 : 0}; size_t d[8], m = 0;
  for (size_t x : c) { bool dup = x > n; for (size_t i = 0; i < m; i++) if (d[i] == x) dup = true; if (!dup) d[m++] = x; }
  return d[pick(m - 1, "size choice")]; }

// ---------------------------------------------------------------- one buffer, any history
static void same(const base::buffer &b, const model &m) {
  sym_check(b.size() == m.n, "a buffer has the size its history implies"); sym_check(b.empty() == (m.n == 0), "empty() agrees with size()");
  sym_check(b.end() == b.begin() + m.n && b.data() == b.begin(), "begin, end and data agree");
  if (m.n) { sym_check(sym_eqmem(b.data(), m.b, m.n), "a buffer holds the bytes its history implies"); sym_check(b[m.n - 1] == m.b[m.n - 1] && *b == m.b[0], "indexing agrees"); }
  base::buffer_view v = b; sym_check(v.size() == m.n && v.data() == b.data(), "a view shows the buffer"); }
static void buffer_history(size_t na, size_t nb, unsigned depth) {
  uint8_t a[MAX], z[MAX]; sym_fill(a, na, "first content"); sym_fill(z, nb, "second content");
  base::buffer s[3]; model m[3]; s[0] = base::buffer(a, na); copy(m[0].b, a, na); m[0].n = na;
  s[1] = base::buffer(nb); for (size_t i = 0; i < nb; i++) s[1].data()[i] = z[i]; copy(m[1].b, z, nb); m[1].n = nb;
  for (unsigned d = 0; d < depth; d++) {
    uint64_t op = d == 0 ? sym_param("op0", 99) : 99; if (op == 99) { op = pick(7, "operation"); }
    size_t i = pick(2, "buffer");
    switch (op) {
      case 0: case 1: { // slice, also into itself
        size_t j = op == 0 ? pick(2, "destination") : i, k = pick_size(m[i].n); sym_note("slice");
        model r; r.n = k; copy(r.b, m[i].b, k); model rest; rest.n = m[i].n - k; copy(rest.b, m[i].b + k, rest.n);
        if (op == 0) { if (i == j) { base::buffer t = s[i].slice(k); same(t, r); same(s[i], rest); m[i] = rest; sym_reach("temporary slice"); break; } s[j] = s[i].slice(k); m[i] = rest; m[j] = r; }
        else { s[i] = s[i].slice(k); m[i] = r; }
        if (k > 20) sym_reach("shared slice"); if (k && k <= 20) sym_reach("copied slice"); break; }
      case 2: { size_t k = pick_size(m[i].n); sym_note("consume"); s[i].consume(k); model r; r.n = m[i].n - k; copy(r.b, m[i].b + k, r.n); m[i] = r; break; }
      case 3: { size_t j = pick(2, "destination"); if (i == j) break; sym_note("move assignment"); s[j] = std::move(s[i]); m[j] = m[i]; m[i].n = 0; sym_reach("move"); break; }
      case 4: { size_t j = pick(2, "second"), t = pick(2, "destination"); if (m[i].n + m[j].n > MAX) break; sym_note("concat"); s[t] = base::buffer::concat(s[i], s[j]); model r; r.n = m[i].n + m[j].n; copy(r.b, m[i].b, m[i].n); copy(r.b + m[i].n, m[j].b, m[j].n); m[t] = r; sym_reach("concat"); break; }
      case 5: { if (!m[i].n) break; size_t k = pick(1, "position") ? m[i].n - 1 : 0; sym_note("write"); uint8_t v = (uint8_t) sym_int(1, "value"); s[i][k] = v; m[i].b[k] = v; sym_reach("write"); break; }
      case 6: { sym_note("move construction and back"); base::buffer t(std::move(s[i])); same(t, m[i]); model e; same(s[i], e); s[i] = std::move(t); break; }
      default: { size_t j = pick(2, "destination"); if (i == j) break; sym_note("copy through a view"); s[j] = base::buffer(static_cast<base::buffer_view>(s[i])); m[j] = m[i]; sym_reach("deep copy"); break; }
    }
    for (unsigned k = 0; k < 3; k++) same(s[k], m[k]);
  }
  for (unsigned k = 0; k < 3; k++) for (size_t q = 0; q < m[k].n; q++) sym_trace(s[k].data()[q]);
}
ENTRY(buffer_ops) { uint64_t l = sym_live(); buffer_history(sym_param("na", 40), sym_param("nb", 20), (unsigned) sym_param("depth", 2)); sym_check(sym_live() == l, "every block is released exactly once"); sym_reach("end"); }

// many slices of one block alive at the same time, released in any order
ENTRY(buffer_many) {
  uint64_t l = sym_live(); { size_t count = sym_param("count", 300), size = sym_param("size", 21), total = count * size + 25; base::buffer b(total); for (size_t i = 0; i < total; i++) b[i] = (uint8_t) (i * 7 + (i >> 8)); uint8_t x = (uint8_t) sym_int(1, "content"); b[size] = x;
    auto at = [&](size_t i) { return i == size ? x : (uint8_t) (i * 7 + (i >> 8)); }; auto *s = new base::buffer[count]; for (size_t i = 0; i < count; i++) { s[i] = b.slice(size); sym_check(s[i].size() == size && b.size() == total - (i + 1) * size, "a slice takes its bytes from the front"); }
    size_t order = pick(3, "order"); auto drop = [&](size_t i) { for (size_t k = 0; k < size; k++) sym_check(s[i][k] == at(i * size + k), "a slice keeps its bytes while others are released"); s[i] = base::buffer(); };
    if (order == 3) { b = base::buffer(); }
    for (size_t i = 0; i < count; i++) drop(order == 1 ? count - 1 - i : order == 2 ? (i * 2 < count ? i * 2 : (i * 2 - count) | 1) % count : i);
    if (order != 3) for (size_t k = 0; k < 25; k++) sym_check(b[k] == at(count * size + k), "the rest keeps its bytes when its slices are released"); delete[] s; sym_trace(b.size()); sym_reach("end"); }
  sym_check(sym_live() == l, "every block is released exactly once"); }

// ---------------------------------------------------------------- chains
static const size_t chunk_sizes[] = {0, 1, 2, 3, 21, 40, 64};
static base::buffer make(const model &m, size_t off, size_t n) { return base::buffer(m.b + off, n); }
// any split of up to 4 chunks; the concatenation is in m
static void fill_chain(base::buffers &c, model &m, size_t *sizes, size_t &count) {
  count = pick(sym_param("chunks", 3), "number of chunks"); size_t big = sym_param("big", 0);
  for (size_t i = 0; i < count; i++) { size_t k = big == 2 ? chunk_sizes[2 * pick(3, "chunk size")] : chunk_sizes[pick(big ? 4 : 3, "chunk size")]; sizes[i] = k; uint8_t t[64]; sym_fill(t, k, "chunk"); copy(m.b + m.n, t, k); m.n += k; c.push(base::buffer(t, k)); } }
template <class S> static void seq_same(const S &s, const model &m, size_t off) {
  sym_check(s.size() == m.n - off, "size is the number of bytes left"); sym_check(s.empty() == (m.n == off), "empty() agrees with size()");
  for (size_t i = off; i < m.n; i++) sym_check(s[i - off] == m.b[i], "indexing reads the concatenation"); if (m.n > off) sym_check(*s == m.b[off], "dereferencing reads the first byte"); }
// sizes around the chunk boundaries
static size_t pick_edge(size_t n, const size_t *sizes, size_t count) { size_t d[40], m = 0, at = 0; auto add = [&](size_t x) { bool dup = x > n; for (size_t i = 0; i < m; i++) if (d[i] == x) dup = true; if (!dup) d[m++] = x; };
  add(0); add(1); add(n); if (n) add(n - 1); add(20); add(21); for (size_t i = 0; i < count; i++) { at += sizes[i]; add(at); add(at + 1); if (at) add(at - 1); } return d[pick(m - 1, "size choice")]; }
ENTRY(chain_ops) {
  uint64_t l = sym_live(); { bool edge = sym_param("big", 0) == 2;
    base::buffers c; model m; size_t sizes[8], count; fill_chain(c, m, sizes, count); size_t off = 0, head = 0; (void) head;
    seq_same(c, m, 0);
    if (count) { sym_check(c.front().size() == sizes[0] && c.back().size() == sizes[count - 1], "front and back are the first and last chunk"); }
    unsigned depth = (unsigned) sym_param("depth", 2); bool pushed = false;
    for (unsigned d = 0; d < depth; d++) {
      switch (pick(4, "operation")) {
        case 0: { size_t k = edge ? pick_edge(m.n - off, sizes, count) : pick(m.n - off, "size"); sym_note("slice"); base::buffer b = c.slice(k); sym_check(b.size() == k, "a slice has the requested size"); if (k) sym_check(sym_eqmem(b.data(), m.b + off, k), "a slice is the prefix of the concatenation"); off += k; sym_reach("slice"); break; }
        case 1: { size_t k = edge ? pick_edge(m.n - off, sizes, count) : pick(m.n - off, "size"); sym_note("consume"); c.consume(k); off += k; sym_reach("consume"); break; }
        case 2: { if (m.n == off) break; sym_note("pop"); base::buffer b = c.pop(); sym_check(b.size() <= m.n - off, "a popped chunk is part of the chain"); if (b.size()) sym_check(sym_eqmem(b.data(), m.b + off, b.size()), "a popped chunk is a prefix of the concatenation"); off += b.size(); sym_reach("pop"); break; }
        case 3: { if (pushed) break; pushed = true; size_t k = pick(2, "pushed size"); uint8_t t[4]; sym_fill(t, k, "pushed"); copy(m.b + m.n, t, k); m.n += k; sym_note("push"); c.push(base::buffer(t, k)); sym_check(c.back().size() == k, "the pushed chunk is last"); sym_reach("push"); break; }
        default: { sym_note("move"); base::buffers e(std::move(c)); c = std::move(e); sym_reach("move"); break; }
      }
      seq_same(c, m, off);
    }
    for (size_t i = off; i < m.n; i++) sym_trace(c[i - off]); sym_trace(c.size());
  }
  sym_check(sym_live() == l, "every chunk is released"); sym_reach("end"); }

// many chunks: every size at once, with one byte of any value
ENTRY(chain_many) {
  uint64_t l = sym_live(); { size_t count = sym_param("count", 300), max = sym_param("max", 3), total = 0, off = 0; auto len = [&](size_t i) { return i * 5 % (max + 1); }; for (size_t i = 0; i < count; i++) total += len(i);
    uint8_t x = (uint8_t) sym_int(1, "content"); size_t where = total / 2; auto at = [&](size_t i) { return i == where ? x : (uint8_t) (i * 7 + (i >> 8)); };
    base::buffers c; size_t n = 0; for (size_t i = 0; i < count; i++) { base::buffer b(len(i)); for (size_t k = 0; k < len(i); k++) b[k] = at(n++); c.push(std::move(b)); } sym_check(c.size() == total && c.empty() == !total, "size is the number of bytes");
    size_t op = pick(5, "operation"), step = total / 7 + 1; auto probe = [&](const auto &s, size_t from) { const size_t ps[] = {0, 1, 20, 21, 63, 64, 255, 256, 257, 300, (total - from) / 2}; for (size_t p : ps) if (from + p < total) sym_check(s[p] == at(from + p), "indexing reads the concatenation"); sym_check(s.size() == total - from, "size is the number of bytes left"); if (from < total) { sym_check(s[total - from - 1] == at(total - 1) && *s == at(from), "from the first to the last"); if (where >= from) sym_check(s[where - from] == x, "every byte keeps its place"); } };
    probe(c, 0);
    if (op == 0) { for (size_t i = 0; i < total; i++) sym_check(c[i] == at(i), "indexing reads the concatenation"); }
    else if (op == 1) { base::buffers::lookahead_type a(c); probe(a, 0); for (; off < total; off += step) { size_t k = total - off < step ? total - off : step; a.consume(k); sym_check(a.consumed() == off + k, "consumed() counts the bytes passed"); probe(a, off + k); base::buffers::lookahead_type b(a); probe(b, off + k); if (off + k < total) { b.consume(1); probe(b, off + k + 1); } probe(a, off + k); } off = 0; probe(c, 0); }
    else if (op == 2) { for (; off < total;) { size_t k = total - off < step ? total - off : step; base::buffer b = c.slice(k); sym_check(b.size() == k, "a slice has the requested size"); for (size_t i = 0; i < k; i++) sym_check(b[i] == at(off + i), "a slice is the prefix of the concatenation"); off += k; probe(c, off); } }
    else if (op == 3) { for (; off < total;) { size_t k = total - off < step ? total - off : step; c.consume(k); off += k; probe(c, off); } }
    else if (op == 4) { while (off < total) { base::buffer b = c.pop(); for (size_t i = 0; i < b.size(); i++) sym_check(b[i] == at(off + i), "a popped chunk is a prefix of the concatenation"); off += b.size(); sym_check(c.size() == total - off, "and gone"); } }
    else { base::buffer b = c.slice(total); for (size_t i = 0; i < total; i++) sym_check(b[i] == at(i), "the whole is the concatenation"); off = total; }
    sym_check(c.size() == total - off && c.empty() == (off == total), "what is left"); sym_trace(c.size()); sym_trace(c.empty() ? 0 : c[0]); sym_reach("end"); }
  sym_check(sym_live() == l, "every chunk is released"); }

// ---------------------------------------------------------------- lookahead
template <class S> static void look(const S &s, const model &m) {
  typename S::lookahead a(s); seq_same(a, m, 0); sym_check(a.consumed() == 0, "a new lookahead has consumed nothing");
  size_t k = pick(m.n, "ahead"); a.consume(k); seq_same(a, m, k); sym_check(a.consumed() == k, "consumed() counts the bytes passed");
  size_t k2 = pick(m.n - k, "further"); a.consume(k2); seq_same(a, m, k + k2); sym_check(a.consumed() == k + k2, "consumed() accumulates");
  typename S::lookahead b(a); seq_same(b, m, k + k2); sym_check(b.consumed() == 0, "a copy starts counting at its own position");
  size_t j = pick(m.n - k - k2, "nested"); b.consume(j); seq_same(b, m, k + k2 + j); sym_check(b.consumed() == j && a.consumed() == k + k2, "nested lookaheads are independent");
  typename S::lookahead d(b); seq_same(d, m, k + k2 + j); seq_same(a, m, k + k2); seq_same(s, m, 0); sym_trace(d.size()); sym_reach("nested"); }
ENTRY(lookahead_buffer) { model m; m.n = sym_param("n", 5); sym_fill(m.b, m.n, "content"); base::buffer b(m.b, m.n); look(b, m); size_t k = pick(m.n, "consumed first"); b.consume(k); model r; r.n = m.n - k; copy(r.b, m.b + k, r.n); look(b, r); }
ENTRY(lookahead_buffer_long) {
  size_t n = sym_param("n", 300); uint8_t x = (uint8_t) sym_int(1, "content"); size_t where = n / 3; base::buffer o(n); for (size_t i = 0; i < n; i++) o[i] = i == where ? x : (uint8_t) (i * 7 + (i >> 8));
  auto at = [&](size_t i) { return i == where ? x : (uint8_t) (i * 7 + (i >> 8)); }; size_t from = pick(1, "consumed first") ? n / 4 : 0; o.consume(from); base::buffer::lookahead_type a(o);
  auto probe = [&](const auto &s, size_t p) { sym_check(s.size() == n - p && s.empty() == (p == n), "what is left is the size"); const size_t ds[] = {0, 1, 20, 63, 64, 255, 256, 300, 65535, 65536}; for (size_t d : ds) if (p + d < n) sym_check(s[d] == at(p + d), "a lookahead reads what its buffer holds"); if (p < n) sym_check(*s == at(p) && s[n - p - 1] == at(n - 1), "from the first to the last"); if (where >= p) sym_check(s[where - p] == x, "every byte keeps its place"); };
  size_t off = from, step = n / 7 + 1; probe(a, off); while (off < n) { size_t k = n - off < step ? n - off : step; a.consume(k); off += k; sym_check(a.consumed() == off - from, "consumed() counts the bytes passed"); probe(a, off); base::buffer::lookahead_type b(a); probe(b, off); sym_check(b.consumed() == 0, "a copy starts counting at its own position"); if (off < n) { b.consume(1); probe(b, off + 1); b.consume(n - off - 1); probe(b, n); sym_check(b.consumed() == n - off && a.consumed() == off - from, "nested lookaheads are independent"); } probe(a, off); probe(o, from); }
  sym_trace(o.size()); sym_reach("end"); }
ENTRY(lookahead_chain) { base::buffers c; model m; size_t sizes[8], count; fill_chain(c, m, sizes, count); look(c, m); }

// ---------------------------------------------------------------- views, addresses
ENTRY(view_equality) {
  uint8_t a[6], b[6]; size_t n = pick(sym_param("n", 3), "left size"), k = pick(sym_param("n", 3), "right size"); sym_fill(a, n, "left"); sym_fill(b, k, "right");
  bool eq = n == k && sym_eqmem(a, b, n);
  base::buffer_view x(a, n), y(b, k); sym_check((x == y) == eq && (x != y) == !eq, "buffer views are equal exactly when their bytes are"); 
  base::string_view s((const char *) a, n), t((const char *) b, k); sym_check((s == t) == eq && (s != t) == !eq, "string views are equal exactly when their bytes are");
  sym_check(s.size() == n && s.empty() == !n && s.end() == s.begin() + n && (!n || (s[n - 1] == (char) a[n - 1] && *s == (char) a[0])), "string view observers");
  http3::header_view h(s, t), g(t, s); sym_check((h == g) == eq && (h != g) == !eq, "headers are equal exactly when name and value are"); sym_check(h == h, "a header equals itself");
  bool upper = false; for (size_t i = 0; i < n; i++) upper |= (a[i] >= 'A' && a[i] <= 'Z'); sym_check(http3::header_is_lowercase(h) == !upper, "a header is lowercase exactly when its name has no A-Z"); sym_trace(eq); sym_trace(upper); sym_reach("end"); }
// long views, alike but for one byte of any value; all of one size or one of them shorter
ENTRY(view_equality_long) {
  static uint8_t a[70000], b[70000]; size_t n = sym_param("n", 300); const size_t ps[] = {0, 1, 7, 8, 15, 16, 20, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 2, n - 1}; size_t k = ps[pick(17, "where")]; if (k >= n) return;
  for (size_t i = 0; i < n; i++) a[i] = b[i] = (uint8_t) ('a' + i * 7 % 26 - (i % 11 == 5 && k % 3 == 2 ? 32 : 0)); uint8_t x = (uint8_t) sym_int(1, "left"), y = (uint8_t) sym_int(1, "right"); a[k] = x; b[k] = y; size_t less = pick(1, "shorter"); bool eq = (x == y) & !less;
  base::buffer_view u(a, n), v(b, n - less); sym_check((u == v) == eq && (u != v) == !eq && (v == u) == eq, "buffer views are equal exactly when their bytes are");
  base::string_view s((const char *) a, n), t((const char *) b, n - less); sym_check((s == t) == eq && (s != t) == !eq && (t == s) == eq, "string views are equal exactly when their bytes are");
  http3::header_view h(s, "v"), g(t, "v"), j("n", s), l("n", t); sym_check((h == g) == eq && (h != g) == !eq && (j == l) == eq && (j != l) == !eq, "headers are equal exactly when name and value are");
  bool upper = false; for (size_t i = 0; i < n; i++) if (i != k) upper |= (a[i] >= 'A' && a[i] <= 'Z'); upper |= (x >= 'A') & (x <= 'Z'); sym_check(http3::header_is_lowercase(h) == !upper && http3::header_is_lowercase(j), "a header is lowercase exactly when its name has no A-Z");
  http3::header o(std::string((const char *) a, n), std::string((const char *) b, n)); sym_check(o.name().size() == n && o.value().size() == n && o.name() == s && (o == http3::header_view(s, t)) == !less, "a header owns copies"); sym_trace(eq); sym_trace(upper); sym_reach("end"); }
ENTRY(addresses) {
  uint8_t a[16], b[16]; size_t n = sym_int(1, "left family") & 1 ? 16 : 4, k = sym_int(1, "right family") & 1 ? 16 : 4; sym_fill(a, n, "left"); sym_fill(b, k, "right");
  ip::address x{base::buffer_view(a, n)}, y{base::buffer_view(b, k)}; bool eq = n == k && sym_eqmem(a, b, n); sym_check((x == y) == eq, "addresses are equal exactly when family and bytes are");
  sym_check((x == ip::address::type::ipv4) == (n == 4), "the family follows from the size"); sym_check(x.bytes().size() == n && sym_eqmem(x.bytes().data(), a, n), "an address keeps its bytes");
  ip::address z = y; z = x; sym_check(z == x && z.bytes().size() == n && sym_eqmem(z.bytes().data(), a, n), "a copied address is equal");
  ip::address t = n == 4 ? ip::address(ipv4::address(a)) : ip::address(ipv6::address(a)); sym_check(t == x, "the typed constructors agree");
  if (n == 4) { uint32_t w = a[0] | (uint32_t) a[1] << 8 | (uint32_t) a[2] << 16 | (uint32_t) a[3] << 24; sym_check(ip::address(ipv4::address(w)) == x, "the integer constructor takes network order in memory"); sym_reach("ipv4"); } else sym_reach("ipv6");
  uint16_t p = (uint16_t) sym_int(2, "port"), q = (uint16_t) sym_int(2, "peer port"); quic::path path(ip::endpoint(x, p), ip::endpoint(y, q));
  sym_check(path.local().address() == x && path.local().port() == p && path.peer().address() == y && path.peer().port() == q, "a path keeps its local and peer endpoints"); sym_trace(eq); sym_trace(path.peer().port()); }

// ---------------------------------------------------------------- events own their payload
ENTRY(http3_events) {
  uint64_t l = sym_live(); {
    uint64_t id = sym_int(8, "id"); bool fin = sym_int(1, "fin") & 1; size_t n = sym_param("n", 21); static uint8_t a[70000]; sym_fill(a, n < 64 ? n : 0, "payload"); if (n >= 64) { for (size_t i = 0; i < n; i++) a[i] = (uint8_t) (i * 7 + (i >> 8)); a[n / 2] = (uint8_t) sym_int(1, "middle"); a[n - 1] = (uint8_t) sym_int(1, "last"); } unsigned hops = (unsigned) pick(2, "moves");
    auto moved = [&](http3::event e) { if (hops == 0) return e; http3::event f(std::move(e)); if (hops == 1) return f; return http3::event(std::move(f)); };
    switch (pick(3, "type")) {
      case 0: { http3::settings s; s.max_header_list_size = sym_int(8, "m"); s.num_placeholders = sym_int(8, "p"); s.qpack_max_table_capacity = sym_int(8, "c"); s.qpack_blocked_streams = sym_int(8, "b"); http3::event e = moved(http3::event(s)); sym_check(e == http3::event::type::settings && e.settings.max_header_list_size == s.max_header_list_size && e.settings.num_placeholders == s.num_placeholders && e.settings.qpack_max_table_capacity == s.qpack_max_table_capacity && e.settings.qpack_blocked_streams == s.qpack_blocked_streams, "a settings event keeps its payload"); sym_reach("settings"); break; }
      case 1: { size_t k = pick(1, "long name") ? n : 3; http3::header h(std::string((const char *) a, k), std::string((const char *) a, n)); http3::event e = moved(http3::event(http3::event::payload::header{id, fin, std::move(h)})); sym_check(e == http3::event::type::header && e.header.id == id && e.header.fin == fin && e.header.header.name().size() == k && e.header.header.value().size() == n && sym_eqmem(e.header.header.name().data(), a, k) && sym_eqmem(e.header.header.value().data(), a, n), "a header event keeps its payload"); sym_reach("header"); break; }
      case 2: { http3::event e = moved(http3::event(http3::event::payload::body{id, fin, base::buffer(a, n)})); sym_check(e == http3::event::type::body && e.body.id == id && e.body.fin == fin && e.body.buffer.size() == n && sym_eqmem(e.body.buffer.data(), a, n), "a body event keeps its payload"); sym_reach("body"); break; }
      default: { http3::event e = moved(http3::event(http3::event::payload::finished{id})); sym_check(e == http3::event::type::finished && e.finished.id == id, "a finished event keeps its payload"); sym_reach("finished"); break; }
    }
    quic::event q(quic::data{id, fin, base::buffer(a, n)}); quic::event r(std::move(q)); sym_check(r == quic::event::type::data && r.id() == id && r.data.fin == fin && r.data.buffer.size() == n && sym_eqmem(r.data.buffer.data(), a, n), "a transport data event keeps its payload"); sym_trace(r.id()); sym_trace(fin);
    quic::application::error er{quic::application::error::stop_sending, id, sym_int(8, "value")}; quic::event x(er); quic::event y(std::move(x)); sym_check(y == quic::event::type::error && y.id() == id && y.error.value == er.value, "a transport error event keeps its payload");
  }
  sym_check(sym_live() == l, "events release what they own"); }
