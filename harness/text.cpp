// C45: what values print as (operator<< and fmt), over libstdc++'s streams and fmt themselves (rt/io.cpp).
#include "harness.h"
#include "frame.h"
#include "io.h"
#include <bnl/base/log.hpp>
#include <bnl/base/string_view.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/event.hpp>
#include <sstream>
#include <string>
#include <vector>
using namespace bnl;
// what a value prints as, directly, on a stream that other text went to, and in a log message
template <class V> static std::string printed(const V &v) {
  std::ostringstream a, b; a << v; b << "x"; b << v << "y"; std::string s = a.str(), t = b.str(), f = fmt::format("{}", v), g = fmt::format("({} {})", v, "z"); sym_check(a.good() && b.good(), "a stream is left usable"); size_t n = s.size();
  sym_check(t.size() == n + 2 && t[0] == 'x' && t[n + 1] == 'y' && sym_eqmem(t.data() + 1, s.data(), n), "a value prints the same wherever it stands"); sym_check(f.size() == n && sym_eqmem(f.data(), s.data(), n) && g.size() == n + 4 && sym_eqmem(g.data() + 1, s.data(), n) && sym_eqmem(g.data() + n + 1, " z)", 3), "a log message shows a value as it prints");
  for (char c : s) sym_trace((uint8_t) c); return s; }
static bool is(const std::string &s, const std::string &want) { return s.size() == want.size() && sym_eqmem(s.data(), want.data(), s.size()); }
static std::string any(size_t n, const char *what) { std::string s; for (size_t i = 0; i < n; i++) s.push_back(n > 40 && i != n / 2 ? (char) ('a' + i % 26) : (char) sym_int(1, what)); return s; }
static std::string decimal(uint64_t v) { std::string s; do s.insert(s.begin(), (char) ('0' + v % 10)); while (v /= 10); return s; }
// the words of a text: names and numbers without what stands between them
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> r; bool in = false; for (char c : s) { bool w = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; if (w && !in) r.push_back(""); if (w) r.back().push_back(c); in = w; } return r; }

ENTRY(text_strings) {
  size_t n = sym_param("n", 2), m = sym_param("m", 1); std::string a = any(n, "text"), b = any(m, "value"); base::string_view v(a.data(), n), w(b.data(), m);
  sym_check(is(printed(v), a), "a string view prints its characters"); sym_check(is(printed(http3::header_view(v, w)), a + ": " + b), "a header prints as name and value"); http3::header h(base::string(a.data(), n), base::string(b.data(), m)); sym_check(is(printed(h), a + ": " + b), "a header prints as name and value");
  bool zero = false; for (char c : a) if (!c) zero = true; if (!zero && n) { ip::host host(a.c_str()); sym_check(is(printed(host), a), "a host prints its name"); sym_reach("host"); } sym_reach("end"); }
ENTRY(text_ipv4) {
  uint8_t b[4]; size_t wide = sym_param("wide", 1); std::string want; for (size_t i = 0; i < 4; i++) { b[i] = (uint8_t) sym_int(1, "byte"); if (!(wide >> i & 1)) sym_assume(b[i] < 10); want += (i ? "." : "") + decimal(b[i]); } ipv4::address v(base::buffer_view(b, 4)); sym_check(is(printed(v), want), "an IPv4 address prints as four decimal numbers"); sym_check(is(printed(ip::address(v)), want), "an IP address prints as the address it is"); sym_reach("end"); }
static uint64_t number(const char *what) { static const uint64_t BIG[] = {256, 999, 1000, 65535, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1ull << 62) - 1, 1ull << 63, ~0ull}; size_t k = pick(11, "big"); return k ? BIG[k - 1] : sym_int(1, what); }
ENTRY(text_event) {
  uint64_t id = number("id"), id0 = id; size_t n = sym_param("n", 3); bool fin = pick(1, "fin"); quic::data d; d.id = id; d.fin = fin; d.buffer = base::buffer(n); quic::event e(std::move(d)); std::vector<std::string> w = words(printed(e)); std::vector<std::string> want{"DATA", "id", decimal(id0), "fin", fin ? "true" : "false", "size", decimal(n)};
  sym_check(w.size() == want.size(), "a data event prints its id, whether it is the last, and its size"); for (size_t i = 0; i < w.size() && i < want.size(); i++) sym_check(is(w[i], want[i]), "a data event prints its id, whether it is the last, and its size"); sym_reach("end"); }
ENTRY(text_error_event) {
  uint64_t code = number("code"); quic::event e(quic::application::error{quic::application::error::stop_sending, 4, code}); std::vector<std::string> w = words(printed(e)); sym_check(w.size() == 2 && is(w[0], "ERROR") && is(w[1], decimal(code)), "an error event prints its code"); sym_reach("end"); }
ENTRY(text_frame) {
  static const struct { uint64_t type; const char *name, *code; } ALL[] = {{0, "DATA", "0x00"}, {1, "HEADERS", "0x01"}, {2, "PRIORITY", "0x02"}, {3, "CANCEL_PUSH", "0x03"}, {4, "SETTINGS", "0x04"}, {5, "PUSH_PROMISE", "0x05"}, {7, "GOAWAY", "0x07"}, {0xd, "MAX_PUSH_ID", "0x0d"}, {0xe, "DUPLICATE_PUSH", "0x0e"}};
  size_t k = pick(8, "type"); rf r = {}; r.type = ALL[k].type; r.a = sym_int(8, "a"); r.b = sym_int(8, "b"); r.size = sym_int(8, "size"); r.x = 1; for (auto &s : r.set) s = sym_int(8, "setting"); F f = make(r); std::vector<std::string> w = words(printed(f)); sym_check(w.size() == 2 && is(w[0], ALL[k].name) && is(w[1], ALL[k].code), "a frame prints its type"); sym_reach("end"); }
