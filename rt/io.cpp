#include "io.h"
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <locale>
#include <new>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <system_error>
io_text io_out, io_err; io_file io_files[2];
namespace { struct capture : std::streambuf { io_text &t; explicit capture(io_text &x) : t(x) {} std::streamsize xsputn(const char *p, std::streamsize n) override { for (long i = 0; i < n; i++) t.put(p[i]); return n; } int overflow(int c) override { if (c != -1) t.put((char) c); return c == -1 ? 0 : c; } }; }
alignas(capture) static char buf_out[sizeof(capture)], buf_err[sizeof(capture)];
#ifndef SYM_IR
#include <sys/mman.h>
#include <unistd.h>
static ssize_t put_text(void *c, const char *p, size_t n) { for (size_t i = 0; i < n; i++) ((io_text *) c)->put(p[i]); return (ssize_t) n; }
static FILE *stream(io_text &t) { FILE *f = fopencookie(&t, "w", {nullptr, put_text, nullptr, nullptr}); setvbuf(f, nullptr, _IONBF, 0); return f; }
void io_open(bool streams) { io_out.n = io_err.n = 0; io_out.lost = io_err.lost = false; stdout = stream(io_out); stderr = stream(io_err); if (!streams) return; std::cout.rdbuf(new (buf_out) capture(io_out)); auto *e = new (buf_err) capture(io_err); std::cerr.rdbuf(e); std::clog.rdbuf(e); }
void io_close() { fflush(stdout); fflush(stderr); }
static char names[2][40];
const char *io_name(int i) { return names[i]; }
void io_begin() { for (int i = 0; i < 2; i++) { io_file &f = io_files[i]; f.fd = f.exists || i ? memfd_create("f", 0) : -1; for (size_t k = 0; f.exists && k < f.n;) { ssize_t w = write(f.fd, f.b + k, f.n - k); if (w <= 0) abort(); k += (size_t) w; } snprintf(names[i], sizeof names[i], i && !f.exists ? "/proc/self/fd/nothing/%d" : "/proc/self/fd/%d", f.fd < 0 ? 999 : f.fd); } }
void io_end() { for (int i = 0; i < 2; i++) { io_file &f = io_files[i]; if (f.fd < 0) continue; f.n = 0; ssize_t r; while (f.n < f.max && (r = pread(f.fd, f.b + f.n, f.max - f.n, (off_t) f.n)) > 0) f.n += (size_t) r; close(f.fd); } }
#else
// ---------------------------------------------------------------- C streams
extern "C" { static char io_stdout_, io_stderr_; char *io_stdout asm("stdout") = &io_stdout_; char *io_stderr asm("stderr") = &io_stderr_; }
static io_text &text_of(void *f) { if (f == &io_stdout_) return io_out; if (f == &io_stderr_) return io_err; __builtin_trap(); }
static void put_all(FILE *f, const char *p, size_t n) { io_text &t = text_of(f); for (size_t i = 0; i < n; i++) t.put(p[i]); }
extern "C" {
size_t io_fwrite(const void *p, size_t s, size_t k, FILE *f) asm("fwrite"); size_t io_fwrite(const void *p, size_t s, size_t k, FILE *f) { put_all(f, (const char *) p, s * k); return k; }
int io_fputs(const char *s, FILE *f) asm("fputs"); int io_fputs(const char *s, FILE *f) { put_all(f, s, strlen(s)); return 0; }
int io_fputc(int c, FILE *f) asm("fputc"); int io_fputc(int c, FILE *f) { char k = (char) c; put_all(f, &k, 1); return c; }
int io_putc(int c, FILE *f) asm("putc"); int io_putc(int c, FILE *f) { char k = (char) c; put_all(f, &k, 1); return c; }
int io_putchar(int c) asm("putchar"); int io_putchar(int c) { io_out.put((char) c); return c; }
int io_puts(const char *s) asm("puts"); int io_puts(const char *s) { while (*s) io_out.put(*s++); io_out.put('\n'); return 0; }
int io_fflush(FILE *) asm("fflush"); int io_fflush(FILE *) { return 0; } int io_ferror(FILE *) asm("ferror"); int io_ferror(FILE *) { return 0; }
int io_fileno(FILE *) asm("fileno"); int io_fileno(FILE *f) { return f == (FILE *) &io_stdout_ ? 1 : 2; } int io_isatty(int) asm("isatty"); int io_isatty(int) { return 0; }
time_t io_time(time_t *) asm("time"); time_t io_time(time_t *t) { if (t) *t = 0; return 0; }
struct tm *io_localtime_r(const time_t *, struct tm *) asm("localtime_r"); struct tm *io_localtime_r(const time_t *, struct tm *t) { *t = {}; t->tm_year = 70; t->tm_mday = 1; t->tm_wday = 4; return t; }
struct tm *io_gmtime_r(const time_t *, struct tm *) asm("gmtime_r"); struct tm *io_gmtime_r(const time_t *c, struct tm *t) { return io_localtime_r(c, t); }
struct tm *io_localtime(const time_t *) asm("localtime"); struct tm *io_localtime(const time_t *c) { static struct tm t; return io_localtime_r(c, &t); }
int io_errno_value;
static unsigned long number(const char *p, char **end, int base, bool sign) { const char *start = p; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-'; unsigned long v = 0; bool any = false, over = false; for (;; p++) { unsigned d = *p >= '0' && *p <= '9' ? (unsigned) (*p - '0') : *p >= 'a' && *p <= 'z' ? (unsigned) (*p - 'a' + 10) : *p >= 'A' && *p <= 'Z' ? (unsigned) (*p - 'A' + 10) : 99; if (d >= (unsigned) base) break; any = true; if (v > (~0ul - d) / (unsigned) base) over = true; v = v * (unsigned) base + d; } if (end) *end = (char *) (any ? p : start); unsigned long limit = neg ? 1ul << 63 : (1ul << 63) - 1; if (over || (sign && v > limit)) { errno = ERANGE; return sign ? limit : ~0ul; } return neg ? 0 - v : v; }
unsigned long io_strtoul(const char *, char **, int) asm("strtoul"); unsigned long io_strtoul(const char *p, char **e, int b) { return number(p, e, b, false); } unsigned long long io_strtoull(const char *, char **, int) asm("strtoull"); unsigned long long io_strtoull(const char *p, char **e, int b) { return number(p, e, b, false); }
long io_strtol(const char *, char **, int) asm("strtol"); long io_strtol(const char *p, char **e, int b) { return (long) number(p, e, b, true); } long long io_strtoll(const char *, char **, int) asm("strtoll"); long long io_strtoll(const char *p, char **e, int b) { return (long long) number(p, e, b, true); } unsigned long io_23strtoul(const char *, char **, int) asm("__isoc23_strtoul"); unsigned long io_23strtoul(const char *p, char **e, int b) { return (unsigned long) number(p, e, b, false); } unsigned long long io_23strtoull(const char *, char **, int) asm("__isoc23_strtoull"); unsigned long long io_23strtoull(const char *p, char **e, int b) { return (unsigned long long) number(p, e, b, false); } long io_23strtol(const char *, char **, int) asm("__isoc23_strtol"); long io_23strtol(const char *p, char **e, int b) { return (long) number(p, e, b, true); } long long io_23strtoll(const char *, char **, int) asm("__isoc23_strtoll"); long long io_23strtoll(const char *p, char **e, int b) { return (long long) number(p, e, b, true); } int io_atoi(const char *) asm("atoi"); int io_atoi(const char *p) { return (int) number(p, nullptr, 10, true); }
}
// ---------------------------------------------------------------- what libstdc++ has out of line
namespace std {
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_filebuf<char>; template class basic_ifstream<char>; template class basic_ofstream<char>; template class basic_fstream<char>;
template class basic_stringbuf<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_stringstream<char>;
template ostream &operator<<(ostream &, char); template ostream &operator<<(ostream &, unsigned char); template ostream &operator<<(ostream &, signed char); template ostream &operator<<(ostream &, const char *); template ostream &endl(ostream &); template ostream &flush(ostream &); template ostream &ends(ostream &); template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, const string &); template istream &operator>>(istream &, string &); template istream &operator>>(istream &, char &); template istream &ws(istream &);
template <> istream &getline(istream &in, string &s, char delim) { s.clear(); istream::sentry ok(in, true); ios_base::iostate st = ios_base::goodbit; if (ok) { bool any = false; streambuf *b = in.rdbuf(); for (;;) { int c = b->sbumpc(); if (c == -1) { st = ios_base::eofbit; if (!any) st |= ios_base::failbit; break; } any = true; if ((char) c == delim) break; s.push_back((char) c); } } else st = ios_base::failbit; if (st) in.setstate(st); return in; }
template istream &getline(istream &, string &);
// one classic locale, with the facets that the streams use
template <auto M> struct rob_table { friend auto ctype_table(std::ctype<char> *) { return M; } }; template <auto M> struct rob_ok { friend auto ctype_ok(std::ctype<char> *) { return M; } }; template <auto M> struct rob_widen { friend auto ctype_widen(std::ctype<char> *) { return M; } };
auto ctype_ok(ctype<char> *); auto ctype_widen(ctype<char> *);
template struct rob_ok<&ctype<char>::_M_widen_ok>; template struct rob_widen<&ctype<char>::_M_widen>;
struct sym_table : ctype<char> { static auto member() { return &sym_table::_M_table; } };
alignas(16) static char the_ctype[sizeof(ctype<char>)]; static ctype_base::mask the_masks[256]; static bool ctype_made;
static const ctype<char> *classic_ctype() { auto *c = (ctype<char> *) the_ctype; if (!ctype_made) { ctype_made = true; c->*ctype_ok(c) = 1; for (int i = 0; i < 256; i++) { (c->*ctype_widen(c))[i] = (char) i; unsigned m = 0; if (i == ' ' || (i >= 9 && i <= 13)) m |= ctype_base::space; if (i >= '0' && i <= '9') m |= ctype_base::digit; if (i >= 'a' && i <= 'z') m |= ctype_base::lower | ctype_base::alpha; if (i >= 'A' && i <= 'Z') m |= ctype_base::upper | ctype_base::alpha; the_masks[i] = (ctype_base::mask) m; } static_cast<sym_table *>(c)->*sym_table::member() = the_masks; } return c; }
const ctype<char> *sym_try_ctype(const locale &) asm("_ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale"); const ctype<char> *sym_try_ctype(const locale &) { return classic_ctype(); }
const ctype<char> &sym_use_ctype(const locale &) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale"); const ctype<char> &sym_use_ctype(const locale &) { return *classic_ctype(); }
void ctype<char>::_M_widen_init() const {}
const void *sym_try_put(const locale &) asm("_ZSt15__try_use_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale"); const void *sym_try_put(const locale &) { return nullptr; }
const void *sym_try_get(const locale &) asm("_ZSt15__try_use_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale"); const void *sym_try_get(const locale &) { return nullptr; }
locale::id ctype<char>::id, codecvt<char, char, mbstate_t>::id; size_t locale::id::_M_id() const throw() { return this == &codecvt<char, char, mbstate_t>::id ? 0 : 1; }
locale::facet::~facet() {} codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type &, const char *a, const char *, const char *&an, char *b, char *, char *&bn) const { an = a; bn = b; return noconv; } codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type &, char *b, char *, char *&bn) const { bn = b; return noconv; } codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type &, const char *a, const char *, const char *&an, char *b, char *, char *&bn) const { an = a; bn = b; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; } bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; } int codecvt<char, char, mbstate_t>::do_length(state_type &, const char *a, const char *b, size_t n) const { return (int) ((size_t) (b - a) < n ? (size_t) (b - a) : n); } int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
struct sym_codecvt : codecvt<char, char, mbstate_t> { ~sym_codecvt() {} }; 
struct sym_facets { int refs; const void **facets; size_t n; }; static const void *facets[1]; static sym_facets impl; alignas(16) static char the_codecvt[sizeof(sym_codecvt)];
extern "C" void *sym_codecvt_vtable[] asm("_ZTVSt7codecvtIcc11__mbstate_tE");
static locale::_Impl *classic_impl() { if (!impl.facets) { *(void ***) the_codecvt = sym_codecvt_vtable + 2; facets[0] = the_codecvt; impl.facets = facets; impl.n = 1; } return (locale::_Impl *) &impl; }
locale::locale() throw() : _M_impl(classic_impl()) {} locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {} locale::~locale() throw() {} const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; } bool locale::operator==(const locale &) const throw() { return true; } 
const locale &locale::classic() { static locale l; return l; }
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {} void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; } void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {} locale ios_base::imbue(const locale &) throw() { return locale(); }
void ios_base::_M_move(ios_base &o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
bool uncaught_exception() noexcept { return false; } int uncaught_exceptions() noexcept { return 0; }
inline namespace _V2 { error_category::~error_category() {} __cow_string error_category::_M_message(int) const { __builtin_trap(); } error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); } bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; } bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct sym_category : error_category { const char *n; constexpr sym_category(const char *s) : n(s) {} const char *name() const noexcept override { return n; } string message(int) const override { return n; } error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); } };
static sym_category sym_system("system"), sym_generic("generic"); const error_category &system_category() noexcept { return sym_system; } const error_category &generic_category() noexcept { return sym_generic; } }
struct iostream_error : error_category { const char *name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } }; static iostream_error iostream_errors; const error_category &iostream_category() noexcept { return iostream_errors; }
static const char *sym_text(const char *p, size_t n) { char *t = new char[n + 1]; memcpy(t, p, n); t[n] = 0; return t; }
__cow_string::__cow_string() : _M_p(sym_text("", 0)) {} __cow_string::__cow_string(const string &t) : _M_p(sym_text(t.data(), t.size())) {} __cow_string::__cow_string(const char *t, size_t n) : _M_p(sym_text(t, n)) {} __cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(sym_text(o._M_p, strlen(o._M_p))) {} __cow_string::~__cow_string() { delete[] _M_p; }
system_error::~system_error() {} runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; } runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
ios_base::failure::failure(const string &s) : system_error(error_code((int) io_errc::stream, iostream_errors), s) {} ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {} ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {} ios_base::failure::~failure() {} const char *ios_base::failure::what() const throw() { return "iostream error"; }
void __throw_ios_failure(const char *s) { throw ios_base::failure(string(s)); } void __throw_ios_failure(const char *s, int) { throw ios_base::failure(string(s)); }
// numbers: what num_put does in the classic locale
static ostream &put_number(ostream &o, unsigned long v, bool neg, bool dec_) { char b[80]; size_t n = sizeof b; ios_base::fmtflags f = o.flags(), base = f & ios_base::basefield; unsigned r = base == ios_base::hex ? 16 : base == ios_base::oct ? 8 : 10; bool up = bool(f & ios_base::uppercase), zero = v == 0; (void) dec_; do { unsigned d = (unsigned) (v % r); b[--n] = (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= r; } while (v); size_t lead = 0; if (f & ios_base::showbase && !zero) { if (r == 8) b[--n] = '0'; if (r == 16) { b[--n] = up ? 'X' : 'x'; b[--n] = '0'; lead = 2; } } if (r == 10) { if (neg) b[--n] = '-', lead = 1; else if (f & ios_base::showpos && dec_) b[--n] = '+', lead = 1; }
  string s(b + n, sizeof b - n); if ((size_t) o.width() > s.size()) { size_t pad = (size_t) o.width() - s.size(); ios_base::fmtflags a = f & ios_base::adjustfield; s.insert(a == ios_base::left ? s.size() : a == ios_base::internal ? lead : 0, pad, o.fill()); } o.width(0); ostream::sentry ok(o); if (ok && o.rdbuf()->sputn(s.data(), (streamsize) s.size()) != (streamsize) s.size()) o.setstate(ios_base::badbit); return o; }
static ostream &put_signed(ostream &o, long v) { bool dec_ = !(o.flags() & (ios_base::hex | ios_base::oct)); return dec_ && v < 0 ? put_number(o, 0 - (unsigned long) v, true, true) : put_number(o, (unsigned long) v, false, dec_); }
ostream &ins_l(ostream *o, long v) asm("_ZNSo9_M_insertIlEERSoT_"); ostream &ins_l(ostream *o, long v) { return put_signed(*o, v); } ostream &ins_x(ostream *o, long long v) asm("_ZNSo9_M_insertIxEERSoT_"); ostream &ins_x(ostream *o, long long v) { return put_signed(*o, v); }
ostream &ins_m(ostream *o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_"); ostream &ins_m(ostream *o, unsigned long v) { return put_number(*o, v, false, false); } ostream &ins_y(ostream *o, unsigned long long v) asm("_ZNSo9_M_insertIyEERSoT_"); ostream &ins_y(ostream *o, unsigned long long v) { return put_number(*o, v, false, false); }
ostream &ins_b(ostream *o, bool v) asm("_ZNSo9_M_insertIbEERSoT_"); ostream &ins_b(ostream *o, bool v) { return o->flags() & ios_base::boolalpha ? *o << (v ? "true" : "false") : put_signed(*o, v); }
// files: io_files
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {} __basic_file<char>::~__basic_file() {}
static struct handle { io_file *f; size_t at; bool app, out; } handles[8]; static size_t n_handles; static handle &of(void *p) { return *(handle *) p; }
__basic_file<char> *__basic_file<char>::open(const char *name, ios_base::openmode m, int) { if (is_open()) return nullptr; io_file *f = name[0] == 'i' && !name[1] ? &io_files[0] : name[0] == 'o' && !name[1] ? &io_files[1] : nullptr; sym_check(f != nullptr, "only the files of the command line are opened"); if (!f) return nullptr; f->opened++; bool in = bool(m & ios_base::in), out = bool(m & (ios_base::out | ios_base::app)); if (!f->exists && (f == &io_files[1] || !out || (in && !(m & (ios_base::trunc | ios_base::app))))) return nullptr; if (out && !(m & ios_base::app) && (!in || m & ios_base::trunc)) { f->n = 0; f->replaced = true; } if (n_handles == 8) n_handles = 0; handle &h = handles[n_handles++]; h = {f, 0, bool(m & ios_base::app), out}; _M_cfile = (__c_file *) &h; if (m & ios_base::ate) h.at = f->n; return this; }
__basic_file<char> *__basic_file<char>::close() { if (!is_open()) return nullptr; _M_cfile = nullptr; return this; } bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; } int __basic_file<char>::fd() throw() { return 3; } __c_file *__basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char *p, streamsize n) { handle &h = of(_M_cfile); if (!h.out) return -1; if (h.app) h.at = h.f->n; for (long i = 0; i < n; i++) { sym_check(h.at < h.f->max, "(harness) the file fits"); if (h.at >= h.f->max) return i; h.f->b[h.at++] = (uint8_t) p[i]; if (h.at > h.f->n) h.f->n = h.at; } return n; } streamsize __basic_file<char>::xsputn_2(const char *p, streamsize n, const char *q, streamsize m) { xsputn(p, n); return n + xsputn(q, m); }
streamsize __basic_file<char>::xsgetn(char *p, streamsize n) { handle &h = of(_M_cfile); long i = 0; for (; i < n && h.at < h.f->n; i++) p[i] = (char) h.f->b[h.at++]; return i; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { handle &h = of(_M_cfile); long at = (w == ios_base::beg ? 0 : w == ios_base::cur ? (long) h.at : (long) h.f->n) + o; if (at < 0) return -1; h.at = (size_t) at; return at; } int __basic_file<char>::sync() { return 0; } streamsize __basic_file<char>::showmanyc() { handle &h = of(_M_cfile); return h.at < h.f->n ? (streamsize) (h.f->n - h.at) : 0; }
}
extern "C" { alignas(16) char sym_cout[sizeof(std::ostream)] asm("_ZSt4cout"); alignas(16) char sym_cerr[sizeof(std::ostream)] asm("_ZSt4cerr"); alignas(16) char sym_clog[sizeof(std::ostream)] asm("_ZSt4clog"); char io_single asm("__libc_single_threaded") = 1; }
void io_open(bool streams) { io_out.n = io_err.n = 0; io_out.lost = io_err.lost = false; if (!streams) return; new (sym_cout) std::ostream(new (buf_out) capture(io_out)); auto *e = new (buf_err) capture(io_err); new (sym_cerr) std::ostream(e); new (sym_clog) std::ostream(e); }
void io_close() {}
const char *io_name(int i) { return i ? "o" : "i"; } void io_begin() {} void io_end() {}
#endif
