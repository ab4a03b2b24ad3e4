// A logger that checks every message: the format is a sound format for exactly the arguments that come with it.
// Installed in any job with the parameter log=1, so that whole histories run with logging on.
#pragma once
#include "sym.h"
#include <bnl/base/log.hpp>
#include <type_traits>
namespace { struct check_logger final : bnl::base::log::api {
  struct reader { void str(const char *p, size_t n) const { uint8_t x = 0; for (size_t i = 0; i < n; i++) x ^= (uint8_t) p[i]; sym_trace(x); }
    void operator()(const char *p) const { size_t n = 0; while (p[n]) n++; str(p, n); } void operator()(fmt::string_view s) const { str(s.data(), s.size()); }
    template <class T> void operator()(T v) const { if constexpr (std::is_integral<T>::value && sizeof(T) <= 8) sym_trace((uint64_t) v); } };
  static size_t length(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
  void log(bnl::base::log::level level, const char *file, const char *function, int line, const char *format, const fmt::format_args &args) const override {
    sym_reach("logged"); sym_check(level >= bnl::base::log::level::trace && level <= bnl::base::log::level::error, "a message has a level"); sym_check(length(file) && length(function) && line > 0, "a message names its source");
    int used = 0; bool sound = true;
    for (const char *p = format; *p; p++) {
      if (*p == '}') { if (p[1] != '}') { sound = false; break; } p++; continue; }
      if (*p != '{') continue; if (p[1] == '{') { p++; continue; }
      p++; if (*p >= '0' && *p <= '9') { sound = false; break; } // automatic numbering throughout
      auto a = args.get(used++); auto t = a.type(); if (t == fmt::detail::type::none_type) { sound = false; break; }
      if (*p == ':') { char last = 0; for (p++; *p && *p != '}'; p++) last = *p; bool integer = t >= fmt::detail::type::int_type && t <= fmt::detail::type::last_integer_type; if ((last == 'x' || last == 'X' || last == 'd' || last == 'b' || last == 'o') && !integer) sound = false; if (last == 's' && integer) sound = false; }
      if (*p != '}') sound = false; if (!sound) break;
      fmt::visit_format_arg(reader(), a); }
    sym_check(sound, "the format of a log message is well-formed for its arguments"); if (sound) sym_check(args.get(used).type() == fmt::detail::type::none_type, "every argument of a log message is shown");
  } };
inline void install_logger() { static const check_logger l; bnl::base::logger = sym_param("log", 0) ? const_cast<check_logger *>(&l) : nullptr; } }
