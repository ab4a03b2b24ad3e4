// The QPACK interop tools (bnl/http3/app/qpack), run whole over files in memory (rt/io.h).
#include <bits/stdc++.h>
#include "harness.h"
#include "ref.h"
#include "io.h"
#include <unistd.h>
#include <fmt/chrono.h>
#include <fmt/color.h>
#include <all_bnl.h>
// the tools, each in a namespace of its own (every header they may need is included above)
#define main tool_main
namespace enc {
#include <bnl/http3/app/qpack/qpack-interop-encode.cpp>
}
namespace dec {
#include <bnl/http3/app/qpack/qpack-interop-decode.cpp>
}
#undef main
using namespace bnl;
// ---------------------------------------------------------------- files in memory
static const size_t FILE_MAX = 66200;
struct memfile { uint8_t b[FILE_MAX]; size_t n = 0; void put(uint8_t v) { sym_check(n < FILE_MAX, "(harness) the file fits"); if (n < FILE_MAX) b[n++] = v; } void put(const uint8_t *p, size_t k) { for (size_t i = 0; i < k; i++) put(p[i]); } };
static memfile in_file, out_file; static bool in_missing, out_missing, old_output;
static int run(bool encode) {
  out_file.n = 0; if (old_output) for (uint8_t i = 0; i < 40; i++) out_file.put(i); io_files[0] = {in_file.b, in_file.n, FILE_MAX, !in_missing, false, 0, -1}; io_files[1] = {out_file.b, out_file.n, FILE_MAX, !out_missing, false, 0, -1}; io_begin(); char tool[] = "tool", *args[] = {tool, (char *) io_name(0), (char *) io_name(1), nullptr};
  int r = encode ? enc::tool_main(3, args) : dec::tool_main(3, args); io_end(); sym_check(io_files[0].n == in_file.n, "the input is left as it is"); out_file.n = io_files[1].n; return r; }
// ---------------------------------------------------------------- what the tools promise
struct rec { text name[4], value[4]; size_t n = 0; };
static bool lower(const text &t) { for (size_t i = 0; i < t.n; i++) if (t.b[i] >= 'A' && t.b[i] <= 'Z') return false; return true; }
static void text_out(memfile &f, const rec &r) { for (size_t i = 0; i < r.n; i++) { f.put(r.name[i].b, r.name[i].n); f.put('\t'); f.put(r.value[i].b, r.value[i].n); f.put('\n'); } f.put('\n'); }
static memfile expected, plain;
// one header list as a record: id, length, block
static void record(uint64_t id, const rec &r) {
  http3::qpack::encoder e; uint8_t b[2200]; size_t n = 0;
  for (size_t i = 0; i < r.n; i++) { http3::result<base::buffer> l = e.encode({base::string_view((const char *) r.name[i].b, r.name[i].n), base::string_view((const char *) r.value[i].b, r.value[i].n)}); sym_assume((bool) l); for (uint8_t x : l.value()) b[n++] = x; }
  for (int k = 7; k >= 0; k--) expected.put((uint8_t) (id >> (8 * k))); for (int k = 3; k >= 0; k--) expected.put((uint8_t) (n >> (8 * k))); expected.put(b, n); }
static void same(const memfile &a, const memfile &b, const char *what) { sym_check(a.n == b.n, what); sym_check(a.n != b.n || sym_eqmem(a.b, b.b, a.n), what); }
static void add_text(text &t, size_t k, const char *what) { sym_fill(t.b + t.n, k, what); for (size_t i = 0; i < k; i++) sym_assume(t.b[t.n + i] != '\n' && t.b[t.n + i] != '\t'); t.n += k; }

// every file of some lines of every kind
ENTRY(interop_encode) {
  size_t lines = sym_param("lines", 4), len = sym_param("len", 1); old_output = false; in_file.n = 0; expected.n = plain.n = 0; static rec r; r.n = 0; uint64_t id = 1; bool bad = false; size_t count = sym_param("first", 4) == 4 ? pick(lines, "lines") : lines, lists = 0, comments = 0; bool open = false;
  auto close = [&] { if (!r.n) return; if (!bad) for (size_t i = 0; i < r.n; i++) if (!lower(r.name[i])) bad = true; if (!bad) { record(id++, r); text_out(plain, r); lists++; } r.n = 0; };
  for (size_t i = 0; i < count; i++) {
    size_t kind = i || sym_param("first", 4) == 4 ? pick(3, "kind of line") : sym_param("first", 4); bool last = i + 1 == count, nl = !last || kind == 0 || pick(1, "ends with a newline");
    if (kind == 0) { close(); }
    else if (kind == 1) { in_file.put('#'); size_t k = pick(len, "comment"); for (size_t j = 0; j < k; j++) { uint8_t c = (uint8_t) sym_int(1, "comment byte"); sym_assume(c != '\n'); in_file.put(c); } comments++; }
    else if (kind == 2) { text &a = r.name[r.n], &v = r.value[r.n]; a.n = v.n = 0; add_text(a, pick(len, "name size"), "name"); if (a.n) sym_assume(a.b[0] != '#'); size_t k = pick(len, "value size"); sym_fill(v.b, k, "value"); v.n = k; for (size_t j = 0; j < k; j++) sym_assume(v.b[j] != '\n'); // a value may hold further TABs
      in_file.put(a.b, a.n); in_file.put('\t'); in_file.put(v.b, v.n); if (!bad) r.n++; }
    else { text t; add_text(t, 1 + pick(len - 1, "line size"), "line without TAB"); sym_assume(t.b[0] != '#'); in_file.put(t.b, t.n); bad = true; open = true; }
    if (nl) in_file.put('\n'); }
  if (!open) close();
  old_output = true; int rv = run(true);
  if (bad) { sym_check(rv == 1, "a malformed file is refused"); sym_reach("refused"); sym_check(out_file.n <= expected.n && sym_eqmem(out_file.b, expected.b, out_file.n), "what was written before a malformed line is right"); return; }
  sym_check(rv == 0, "a well-formed file is encoded"); same(out_file, expected, "every header list becomes one record: its number, its size and its block"); if (lists > 1) sym_reach("two lists"); if (comments) sym_reach("comment");
  for (size_t i = 0; i < out_file.n; i++) sym_trace(out_file.b[i]);
  if (!lists) { sym_reach("empty"); return; }
  in_file = out_file; rv = run(false); sym_check(rv == 0, "the decoder accepts what the encoder wrote"); same(out_file, plain, "the decoder gives the header lists back"); sym_reach("roundtrip"); }

// long names and values, many lists
ENTRY(interop_many) {
  size_t lists = sym_param("lists", 20), size = sym_param("size", 10); in_file.n = 0; expected.n = plain.n = 0; static rec r; uint8_t x = (uint8_t) sym_int(1, "byte"); sym_assume(x >= ' ' && x < 127 && !(x >= 'A' && x <= 'Z') && x != '#'); if (size > 12) x = (uint8_t) sym_concrete(x & 1 ? 'z' : '~');
  for (size_t i = 0; i < lists; i++) { r.n = 1 + i % 3; for (size_t k = 0; k < r.n; k++) { put(r.name[k], k == 0 ? ":path" : k == 1 ? "x" : "cookie"); text &v = r.value[k]; v.n = (i + k) % 2 ? size : 1; for (size_t j = 0; j < v.n; j++) v.b[j] = x; if (v.n > 2) v.b[v.n - 1] = (uint8_t) ('a' + i % 26); } record(i + 1, r); size_t b = in_file.n; text_out(in_file, r); plain.put(in_file.b + b, in_file.n - b); if (i % 4 == 1) in_file.put('\n'); }
  if (sym_param("open", 0)) in_file.n--; int rv = run(true); sym_check(rv == 0, "a well-formed file is encoded"); same(out_file, expected, "every header list becomes one record: its number, its size and its block");
  in_file = out_file; rv = run(false); sym_check(rv == 0, "the decoder accepts what the encoder wrote"); same(out_file, plain, "the decoder gives the header lists back"); for (size_t i = 0; i < out_file.n; i += 7) sym_trace(out_file.b[i]); sym_reach("end"); }

// a block of more than 64 KiB, followed by a small one
ENTRY(interop_big) {
  size_t n = sym_param("size", 65600); uint8_t x = (uint8_t) sym_int(1, "byte"), y = (uint8_t) sym_int(1, "byte"); sym_assume(x >= ' ' && x < 127 && y >= ' ' && y < 127); in_file.n = 0; static const char head[] = "age\t", tail[] = "\n\nage\t0\n\n";
  in_file.put((const uint8_t *) head, 4); for (size_t i = 0; i < n; i++) in_file.b[in_file.n++] = '~'; in_file.b[4 + n / 2] = x; in_file.b[3 + n] = y; in_file.put((const uint8_t *) tail, sizeof(tail) - 1); plain = in_file;
  int rv = run(true); sym_check(rv == 0, "a well-formed file is encoded"); const uint8_t *o = out_file.b; size_t first = (size_t) o[8] << 24 | (size_t) o[9] << 16 | (size_t) o[10] << 8 | o[11]; sym_check(first > n && out_file.n == 12 + first + 12 + (size_t) o[12 + first + 11], "a record has its own size"); sym_check(o[7] == 1 && o[12 + first + 7] == 2, "records are numbered");
  in_file = out_file; rv = run(false); sym_check(rv == 0, "the decoder accepts what the encoder wrote"); same(out_file, plain, "the decoder gives the header lists back"); sym_reach("end"); }

// any file: records whose size is right, too small, too big or arbitrary
ENTRY(interop_decode) {
  size_t n = sym_param("n", 4), records = sym_param("records", 1), mode = sym_param("mode", 0); in_file.n = 0; plain.n = 0; static rec r; bool bad = false;
  static uint8_t blocks[64];
  for (size_t q = 0; q < records; q++) {
    uint8_t id[8] = {}; if (!q) sym_fill(id, 8, "id"); in_file.put(id, 8); size_t k = q + 1 == records ? n : pick(n, "block size"); uint64_t size = k;
    if (mode == 1) { size = sym_int(4, "size"); sym_assume(size != k); size = sym_concrete(size <= k ? size : size <= k + 13 ? k + 1 : size >> 24 ? (size >> 31 ? 0xffffffff : k + 0x1000000) : size >> 16 ? k + 0x10000 : k + 0x100); }
    if (mode == 2) { size_t cut = pick(11, "bytes of a truncated record"); in_file.n -= 8; uint8_t t[12]; sym_fill(t, 12, "truncated"); in_file.put(t, cut); if (cut) bad = true; break; }
    for (int j = 3; j >= 0; j--) in_file.put((uint8_t) (size >> (8 * j))); sym_fill(blocks, k, "block"); in_file.put(blocks, k); if (bad) continue;
    if (mode == 1) { bad = true; if (size > k && q + 1 < records) sym_assume(false); }
    base::buffer b(blocks, k < size ? k : (size_t) size); http3::qpack::decoder d; r.n = 0;
    if (mode != 1) while (d.count() != size) { http3::result<http3::header> h = d.decode(b); if (!h) { bad = true; break; } text &a = r.name[r.n], &v = r.value[r.n]; a.n = v.n = 0; for (char c : h.value().name()) a.b[a.n++] = (uint8_t) c; for (char c : h.value().value()) v.b[v.n++] = (uint8_t) c; r.n++; sym_assume(r.n < 4); }
    else { // a shorter block is good if it is a whole block by itself and what follows is a whole record: too short to be one here
      if (size < k) { while (d.count() != size) { http3::result<http3::header> h = d.decode(b); if (!h) { break; } } } }
    if (q + 1 < records) sym_assume(!bad); if (!bad) text_out(plain, r); }
  int rv = run(false);
  if (bad) { sym_check(rv == 1, "a malformed file is refused"); sym_check(out_file.n >= plain.n && sym_eqmem(out_file.b, plain.b, plain.n), "the lists before a malformed record are written"); if (out_file.n > plain.n) sym_check(mode == 1, "nothing of a malformed record is written"); sym_reach("refused"); }
  else { sym_check(rv == 0, "a well-formed file is decoded"); same(out_file, plain, "the decoder writes one list per record"); sym_reach("decoded"); for (size_t i = 0; i < out_file.n; i++) sym_trace(out_file.b[i]); } }

ENTRY(interop_usage) {
  size_t n = pick(3, "arguments"); in_file.n = 0; io_files[0] = {in_file.b, 0, FILE_MAX, true, false, 0, -1}; io_files[1] = {out_file.b, 0, FILE_MAX, true, false, 0, -1}; io_begin(); char tool[] = "tool", *args[] = {tool, (char *) io_name(0), (char *) io_name(1), nullptr}; args[n] = nullptr; int e = enc::tool_main((int) n, args), d = dec::tool_main((int) n, args); io_end();
  if (n < 3) { sym_check(e == 1 && d == 1, "missing arguments are refused"); sym_check(!io_files[0].opened && !io_files[1].opened, "no file is touched without arguments"); sym_reach("usage"); } else { sym_check(e == 0 && d == 0 && io_files[1].n == 0, "an empty file is encoded and decoded to an empty file"); sym_reach("empty"); } }
ENTRY(interop_missing) {
  in_missing = pick(1, "no input"); out_missing = !in_missing; in_file.n = 0; static const char text[] = "age\t0\n\n"; in_file.put((const uint8_t *) text, sizeof(text) - 1); bool encode = pick(1, "encode"); if (in_missing) in_file.n = 0; int r = run(encode); sym_check(r == 1, "a file that cannot be opened fails the tool"); in_missing = out_missing = false; sym_reach("end"); }
