// Error codes (bnl/base/system_error) and the console logger (bnl/log).
#include "harness.h"
#include "io.h"
#include <bnl/base/system_error.hpp>
#include <bnl/log/console.hpp>
#include <string>
#include <unistd.h>
using namespace bnl;
static size_t pick(size_t bound, const char *name) { uint64_t k = sym_int(1, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }

// ---------------------------------------------------------------- C39: error codes
struct named { uint64_t value; const char *name; };
// the errors as http3/result.hpp and quic/result.hpp name them
static const named HTTP3[] = {{(uint64_t) http3::error::no_error, "no error"}, {(uint64_t) http3::error::internal, "internal"}, {(uint64_t) http3::error::wrong_stream, "wrong stream"}, {(uint64_t) http3::error::closed_critical_stream, "closed critical stream"}, {(uint64_t) http3::error::missing_settings, "missing settings"}, {(uint64_t) http3::error::unexpected_frame, "unexpected frame"}, {(uint64_t) http3::error::malformed_frame, "malformed frame"}, {(uint64_t) http3::error::qpack_decompression_failed, "qpack decompression failed"}, {(uint64_t) http3::error::incomplete, "incomplete"}, {(uint64_t) http3::error::idle, "idle"}, {(uint64_t) http3::error::delegate, "delegate"}, {(uint64_t) http3::error::not_implemented, "not implemented"}, {(uint64_t) http3::error::varint_overflow, "varint overflow"}, {(uint64_t) http3::error::malformed_header, "malformed header"}, {(uint64_t) http3::error::stream_closed, "stream closed"}, {(uint64_t) http3::error::invalid_handle, "invalid handle"}};
static const named QUIC[] = {{(uint64_t) quic::error::no_error, "no error"}, {(uint64_t) quic::error::internal, "internal"}, {(uint64_t) quic::error::incomplete, "incomplete"}, {(uint64_t) quic::error::idle, "idle"}, {(uint64_t) quic::error::delegate, "delegate"}, {(uint64_t) quic::error::finished, "finished"}, {(uint64_t) quic::error::not_implemented, "not implemented"}, {(uint64_t) quic::error::handshake, "handshake"}, {(uint64_t) quic::error::crypto, "crypto"}, {(uint64_t) quic::error::ngtcp2, "ngtcp2"}, {(uint64_t) quic::error::path_validation, "path validation"}, {(uint64_t) quic::error::stream_not_found, "stream not found"}, {(uint64_t) quic::error::stream_id_blocked, "stream id blocked"}, {(uint64_t) quic::error::stream_data_blocked, "stream data blocked"}};
template <class T, size_t N> static void error_codes(const named (&all)[N], const char *category, const std::error_category &cat) {
  uint64_t x = sym_int(8, "error"), y = sym_int(8, "other error"); size_t i = N, j = N; for (size_t k = 0; k < N; k++) { if (x == all[k].value) i = k; if (y == all[k].value) j = k; } sym_assume(i < N && j < N); i = (size_t) sym_concrete(i); j = (size_t) sym_concrete(j);
  std::error_code a = (T) x, b = (T) y; sym_check(bool(a) == ((T) x != T::no_error), "every error but no_error is an error code that says so"); sym_check((a == b) == (x == y), "distinct errors have distinct error codes"); sym_check(a == (T) x && (b == (T) x) == (x == y), "an error code compares with the error it was made from");
  sym_check(&a.category() == &cat && &make_error_code((T) x).category() == &cat, "an error code belongs to the category of its library"); sym_check(std::string(cat.name()) == category, "each category has its name"); sym_check(a.message() == all[i].name && make_error_code((T) x).message() == all[i].name, "an error code has the message of its error");
  sym_trace((uint64_t) a.value()); sym_reach("end"); }
ENTRY(error_codes_http3) { error_codes<http3::error>(HTTP3, "bnl-http3", http3::error_category()); }
ENTRY(error_codes_quic) { error_codes<quic::error>(QUIC, "bnl-quic", quic::error_category()); sym_check(std::error_code(quic::error::idle) != std::error_code(http3::error::idle) && std::error_code(quic::error::internal) != http3::error::internal && &quic::error_category() != &http3::error_category(), "errors of different libraries differ"); }
ENTRY(error_codes_any) { int c = (int) sym_int(4, "code"); const std::error_category &k = pick(1, "quic") ? quic::error_category() : http3::error_category(); bool known = false; uint64_t low[] = {0, 1, 3, 0xa, 0xf, 0x12, 0x13, 0x100, 0x200}; for (uint64_t v : low) if ((uint64_t) c == v) known = true; if (c >= 0x40000000 && c < 0x40000010) known = true; if (known) return; sym_check(k.message(c) == "unknown", "a code that belongs to no error has no message"); sym_reach("unknown"); }

// ---------------------------------------------------------------- C41: the console logger
static size_t count(const std::string &s, const std::string &w) { size_t n = 0; for (size_t i = 0; i + w.size() <= s.size(); i++) if (s.compare(i, w.size(), w) == 0) n++; return n; }
// text without its terminal escapes
static std::string plain(const io_text &t) { sym_check(!t.lost, "(harness) the text fits"); std::string s; for (size_t i = 0; i < t.n; i++) { if (t.b[i] == '\x1b') { while (i < t.n && t.b[i] != 'm') i++; continue; } s.push_back(t.b[i]); } return s; }
ENTRY(console_log) {
  size_t level = pick(4, "level"), n = sym_param("n", 2); bool source = pick(1, "source"); std::string arg; for (size_t i = 0; i < n; i++) { if (n > 40 && i != n / 2) { arg.push_back((char) ('a' + i % 26)); continue; } char c = (char) sym_int(1, "text"); sym_assume(c >= ' ' && c < 127); arg.push_back(c); } uint8_t number = (uint8_t) sym_int(1, "number"); std::string decimal; { unsigned v = number; do decimal.insert(decimal.begin(), (char) ('0' + v % 10)); while (v /= 10); }
  static const base::log::level L[] = {base::log::level::trace, base::log::level::debug, base::log::level::info, base::log::level::warning, base::log::level::error}; static const char *NAMES[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"};
  io_open(); { log::console c(source); size_t messages = 1 + pick(1, "messages"); bnl::base::logger = &c; int line = __LINE__; for (size_t i = 0; i < messages; i++) BNL_LOG(L[level], "<<{}|{}|{}>>", arg, "second", number); bnl::base::logger = nullptr; io_close();
    std::string o = plain(level >= 3 ? io_err : io_out), shown = "<<" + arg + "|second|" + decimal + ">>", at_line = std::to_string(line);
    sym_check((level < 3 ? io_err : io_out).n == 0, "a message goes to one stream: warnings and errors to stderr, others to stdout"); size_t lines = 0, from = 0; while (from < o.size()) { size_t end = o.find('\n', from); sym_check(end != o.npos, "every message is a line"); if (end == o.npos) break; sym_check(end - from >= shown.size() && sym_eqmem(o.data() + end - shown.size(), shown.data(), shown.size()), "a line ends with the message, with its arguments"); std::string head(o.data() + from, end - from >= shown.size() ? end - from - shown.size() : 0); sym_check(count(head, NAMES[level]) == 1, "a message shows its level"); sym_check(count(head, "misc.cpp") == source && (!source || count(head, at_line)), "the source is shown when asked for"); lines++; from = end + 1; }
    sym_check(lines == messages, "every message is shown once"); }
  sym_trace(level); sym_reach("end"); }
