// The operating system and the event loop under bnl/http3/app/endpoint, as models: sockets, sd-event, name lookup.
#pragma once
#include "harness.h"
#include <arpa/inet.h>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <memory>
#include <netdb.h>
#include <stdexcept>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <system_error>
#include <systemd/sd-event.h>
#include <unistd.h>
static inline size_t pick(size_t bound, const char *name) { if (!bound) return 0; uint64_t k = sym_int(1, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }
// ---------------------------------------------------------------- failing calls
static size_t os_calls, os_fail; static int os_errno; // call number os_fail fails with os_errno
static const char *os_failed;
static bool loop_safe; // failures of the loop itself are left out
static bool failing(const char *what) { if (loop_safe && what[0] == 's' && what[1] == 'd') return false; if (++os_calls != os_fail) return false; os_failed = what; errno = os_errno; return true; }
// ---------------------------------------------------------------- descriptors and datagrams
static const int FD0 = 5000; static struct { bool open; int closed; } fds[12]; static int nfds;
static int new_fd() { fds[nfds] = {true, 0}; return FD0 + nfds++; }
static bool live_fd(int fd) { return fd >= FD0 && fd < FD0 + nfds && fds[fd - FD0].open; }
#ifndef AM_BYTES // how much the model of the network holds
#define AM_BYTES 24
#endif
#ifndef AM_COUNT
#define AM_COUNT 16
#endif
struct datagram { uint8_t b[AM_BYTES]; size_t n; };
static datagram wire[AM_COUNT], arriving[AM_COUNT]; static size_t nwire, arrived, taken, to_arrive; // sent; [taken, arrived) can be received, [arrived, to_arrive) comes later
static bool race; static int pending_error, send_blocked_at; static size_t sends; static sockaddr_storage connected, local_sa; static int bound_family; static bool can_block, last_blocked; static size_t block_every; static size_t blocks;
static void maybe_arrive() { if (race && arrived < to_arrive && pick(1, "a datagram arrives")) arrived++; }
extern "C" {
int socket(int family, int type, int protocol) noexcept { if (failing("socket")) return -1; sym_check((type & 0xff & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) == SOCK_DGRAM && (type & SOCK_NONBLOCK), "a datagram socket that does not block"); sym_check(protocol == 0 || protocol == IPPROTO_UDP, "a UDP socket"); bound_family = family; return new_fd(); }
int connect(int fd, const sockaddr *a, socklen_t n) { sym_check(live_fd(fd), "a live descriptor"); if (failing("connect")) return -1; sym_check(n <= sizeof(connected) && n >= (a->sa_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) && a->sa_family == bound_family, "an address of the family of the socket"); memcpy(&connected, a, n); return 0; }
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) noexcept { (void) v; (void) n; (void) level; (void) name; sym_check(live_fd(fd), "a live descriptor"); return failing("setsockopt") ? -1 : 0; }
int getsockopt(int fd, int level, int name, void *v, socklen_t *n) noexcept { sym_check(live_fd(fd) && level == SOL_SOCKET && name == SO_ERROR && *n == sizeof(int), "the pending error of a live socket"); if (failing("getsockopt")) return -1; memcpy(v, &pending_error, sizeof(int)); pending_error = 0; return 0; }
static int name_of(int fd, sockaddr *a, socklen_t *n, const sockaddr_storage &s) { sym_check(live_fd(fd), "a live descriptor"); size_t k = s.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); sym_check(*n >= k, "room for an address"); memcpy(a, &s, k); *n = (socklen_t) k; return 0; }
int getsockname(int fd, sockaddr *a, socklen_t *n) noexcept { return name_of(fd, a, n, local_sa); }
int getpeername(int fd, sockaddr *a, socklen_t *n) noexcept { return name_of(fd, a, n, connected); }
ssize_t send(int fd, const void *p, size_t n, int) { sym_check(live_fd(fd), "a live descriptor"); sends++; last_blocked = false; if (failing("send")) return -1; if (block_every ? sends % block_every == 0 : can_block && pick(1, "the socket is full")) { blocks++; last_blocked = true; errno = EAGAIN; return -1; } sym_check(n <= sizeof(wire[0].b) && nwire < AM_COUNT, "(harness) the datagram fits"); memcpy(wire[nwire].b, p, n); wire[nwire++].n = n; return (ssize_t) n; }
ssize_t recv(int fd, void *p, size_t n, int flags) { sym_check(live_fd(fd), "a live descriptor"); maybe_arrive(); if (failing("recv")) return -1; if (taken == arrived) { errno = EAGAIN; return -1; } datagram &d = arriving[taken]; size_t k = n < d.n ? n : d.n; if (k) memcpy(p, d.b, k); if (!(flags & MSG_PEEK)) taken++; return (ssize_t) (flags & MSG_TRUNC ? d.n : k); }
int ioctl(int fd, unsigned long request, ...) noexcept { if (!live_fd(fd)) { errno = ENOTTY; return -1; } if (failing("ioctl")) return -1; sym_check(request == FIONREAD, "(harness) a known request"); va_list l; va_start(l, request); int *size = va_arg(l, int *); va_end(l); maybe_arrive(); *size = taken == arrived ? 0 : (int) arriving[taken].n; return 0; }
int close(int fd) {
  if (fd >= FD0 && fd < FD0 + nfds) { sym_check(fds[fd - FD0].open, "a descriptor is closed once"); fds[fd - FD0].open = false; fds[fd - FD0].closed++; return 0; }
#ifdef SYM_IR
  sym_check(false, "only open descriptors are closed"); return 0;
#else
  return (int) syscall(SYS_close, fd);
#endif
}
// ---------------------------------------------------------------- sd-event
struct sd_event { int refs = 0; bool live = true, exiting = false; int code = 0; };
struct sd_event_source { int refs = 0; int kind = 0, fd = -1, sig = 0; uint32_t events = 0; sd_event_io_handler_t io = nullptr; sd_event_time_handler_t timer = nullptr; void *user = nullptr; int enabled = 0; uint64_t when = 0, accuracy = 0; };
static sd_event the_loop; static sd_event_source src[10]; static size_t nsrc; static uint64_t now_usec; static void (*schedule)(); static int loop_result; static sigset_t blocked; static int nblocked;
int sd_event_default(sd_event **e) { if (failing("sd_event_default")) return -os_errno; the_loop.refs++; *e = &the_loop; return 1; }
int sd_event_new(sd_event **e) { return sd_event_default(e); }
sd_event *sd_event_ref(sd_event *e) { e->refs++; return e; }
sd_event *sd_event_unref(sd_event *e) { if (e) { sym_check(e == &the_loop && e->refs > 0, "a loop is released once per reference"); e->refs--; } return nullptr; }
int sd_event_now(sd_event *e, clockid_t clock, uint64_t *usec) { sym_check(e == &the_loop && e->refs > 0, "the time of a live loop"); sym_check(clock == CLOCK_MONOTONIC, "the clock that the timers use"); *usec = now_usec; return 0; }
static int add(sd_event *e, sd_event_source **s, sd_event_source v, const char *what) { sym_check(e == &the_loop && e->refs > 0, "a live loop"); if (failing(what)) return -os_errno; sym_check(nsrc < 10, "(harness) few sources"); src[nsrc] = v; src[nsrc].refs = 1; if (s) *s = &src[nsrc]; nsrc++; return 0; }
int sd_event_add_io(sd_event *e, sd_event_source **s, int fd, uint32_t events, sd_event_io_handler_t cb, void *user) { sd_event_source v; v.kind = 1; v.fd = fd; v.events = events; v.io = cb; v.user = user; v.enabled = SD_EVENT_ON; return add(e, s, v, "sd_event_add_io"); }
int sd_event_add_time(sd_event *e, sd_event_source **s, clockid_t clock, uint64_t usec, uint64_t accuracy, sd_event_time_handler_t cb, void *user) { sym_check(clock == CLOCK_MONOTONIC, "one clock"); sd_event_source v; v.kind = 2; v.accuracy = accuracy ? accuracy : 250000; v.timer = cb; v.user = user; v.when = usec; v.enabled = SD_EVENT_ONESHOT; return add(e, s, v, "sd_event_add_time"); }
int sd_event_add_signal(sd_event *e, sd_event_source **s, int sig, sd_event_signal_handler_t, void *user) { sd_event_source v; v.kind = 3; v.sig = sig; v.user = user; v.enabled = SD_EVENT_ON; return add(e, s, v, "sd_event_add_signal"); }
int sd_event_exit(sd_event *e, int code) { sym_check(e == &the_loop && e->refs > 0, "a live loop"); if (failing("sd_event_exit")) return -os_errno; e->exiting = true; e->code = code; return 0; }
int sd_event_loop(sd_event *e) { sym_check(e == &the_loop && e->refs > 0, "a live loop"); if (failing("sd_event_loop")) return -os_errno; e->exiting = false; if (schedule) schedule(); return e->code; }
sd_event_source *sd_event_source_ref(sd_event_source *s) { s->refs++; return s; }
static bool is_source(sd_event_source *s) { for (size_t i = 0; i < nsrc; i++) if (s == &src[i]) return s->refs > 0; return false; }
sd_event_source *sd_event_source_unref(sd_event_source *s) { if (s) { sym_check(is_source(s), "a source is released once"); s->refs--; } return nullptr; }
sd_event *sd_event_source_get_event(sd_event_source *) { return &the_loop; }
void *sd_event_source_get_userdata(sd_event_source *s) { return s ? s->user : nullptr; }
void *sd_event_source_set_userdata(sd_event_source *s, void *user) { if (!s) return nullptr; sym_check(is_source(s), "a live source"); void *o = s->user; s->user = user; return o; }
int sd_event_source_set_enabled(sd_event_source *s, int m) { sym_check(is_source(s), "a live source"); s->enabled = m; return 0; }
int sd_event_source_set_time(sd_event_source *s, uint64_t usec) { sym_check(is_source(s) && s->kind == 2, "a live timer"); s->when = usec; return 0; }
int sd_event_source_set_time_accuracy(sd_event_source *s, uint64_t usec) { sym_check(is_source(s) && s->kind == 2, "a live timer"); s->accuracy = usec ? usec : 250000; return 0; }
int sd_event_source_set_exit_on_failure(sd_event_source *, int) { return 0; }
int sd_event_source_set_description(sd_event_source *, const char *) { return 0; }
int sd_event_source_set_priority(sd_event_source *, int64_t) { return 0; }
int sigprocmask(int how, const sigset_t *s, sigset_t *) noexcept {
#ifndef SYM_IR
  if (!schedule && !nsrc) return 0;
#endif
  sym_check(how == SIG_BLOCK, "signals are blocked"); if (failing("sigprocmask")) return -1; if (sigismember(s, SIGINT)) nblocked |= 1; if (sigismember(s, SIGTERM)) nblocked |= 2; return 0; }
#ifdef SYM_IR
int sigemptyset(sigset_t *s) noexcept { memset(s, 0, sizeof(*s)); return 0; } int sigaddset(sigset_t *s, int n) noexcept { s->__val[0] |= 1UL << (n - 1); return 0; } int sigismember(const sigset_t *s, int n) noexcept { return (int) (s->__val[0] >> (n - 1) & 1); }
const char *gai_strerror(int) noexcept { return "lookup"; }
#endif
}
// calls a source the way the loop does; a handler that fails is not called again
static int fire_io(sd_event_source &s, uint32_t events) { int r = s.io(&s, s.fd, events, s.user); if (r < 0) s.enabled = SD_EVENT_OFF; return r; }
static int fire_timer(sd_event_source &s) { s.enabled = SD_EVENT_OFF; sym_check(s.accuracy <= 1000, "a timer fires when it is due, not up to a quarter of a second later"); return s.timer(&s, s.when, s.user); }
static void os_reset() { os_calls = 0; os_fail = 0; os_errno = 0; os_failed = nullptr; nfds = 0; nwire = arrived = taken = to_arrive = 0; race = can_block = last_blocked = loop_safe = false; blocks = block_every = 0; pending_error = 0; sends = 0; connected = {}; local_sa = {}; the_loop = sd_event(); nsrc = 0; now_usec = 0; schedule = nullptr; loop_result = 0; nblocked = 0; }
static void os_end() { for (int i = 0; i < nfds; i++) sym_check(!fds[i].open, "every descriptor is closed"); for (size_t i = 0; i < nsrc; i++) sym_check(src[i].refs == (src[i].kind == 3), "every source is released"); sym_check(the_loop.refs == 0, "the loop is released"); }
// ---------------------------------------------------------------- addresses
#include <os/ip/address.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
struct address_in { bool v6; uint8_t b[16]; uint16_t port; };
static address_in any_address(const char *name) { address_in a; a.v6 = pick(1, "IPv6"); sym_fill(a.b, a.v6 ? 16 : 4, name); a.port = (uint16_t) sym_int(2, "port"); return a; }
static ip::address address_of(const address_in &a) { if (a.v6) return ipv6::address(base::buffer_view(a.b, 16)); return ipv4::address(base::buffer_view(a.b, 4)); }
static bool is(const ip::address &a, const address_in &b) { return (a == (b.v6 ? ip::address::type::ipv6 : ip::address::type::ipv4)) && a.bytes().size() == (b.v6 ? 16u : 4u) && sym_eqmem(a.bytes().data(), b.b, b.v6 ? 16 : 4); }
static bool is(const ip::endpoint &e, const address_in &b) { return is(e.address(), b) && e.port() == b.port; }
static bool same(const sockaddr_storage &s, const address_in &a) { uint8_t port[2] = {(uint8_t) (a.port >> 8), (uint8_t) a.port}; if (a.v6) { sockaddr_in6 v; memcpy(&v, &s, sizeof(v)); return v.sin6_family == AF_INET6 && sym_eqmem(&v.sin6_port, port, 2) && sym_eqmem(&v.sin6_addr, a.b, 16) && v.sin6_flowinfo == 0 && v.sin6_scope_id == 0; } sockaddr_in v; memcpy(&v, &s, sizeof(v)); return v.sin_family == AF_INET && sym_eqmem(&v.sin_port, port, 2) && sym_eqmem(&v.sin_addr, a.b, 4); }
static void to_storage(sockaddr_storage &s, const address_in &a) { uint8_t port[2] = {(uint8_t) (a.port >> 8), (uint8_t) a.port}; s = {}; if (a.v6) { sockaddr_in6 v = {}; v.sin6_family = AF_INET6; memcpy(&v.sin6_port, port, 2); memcpy(&v.sin6_addr, a.b, 16); memcpy(&s, &v, sizeof(v)); } else { sockaddr_in v = {}; v.sin_family = AF_INET; memcpy(&v.sin_port, port, 2); memcpy(&v.sin_addr, a.b, 4); memcpy(&s, &v, sizeof(v)); } }
static int some_errno() { int e = (int) sym_int(1, "errno"); sym_assume(e > 0 && e < 134 && e != EAGAIN); return e; }
// ---------------------------------------------------------------- name lookup
#ifndef AM_FOUND // how many addresses a lookup finds at most
#define AM_FOUND 4
#endif
static addrinfo infos[AM_FOUND]; static sockaddr_storage found[AM_FOUND]; static size_t nfound, freed; static int lookup_rv; static char asked[8];
static void note_name(const char *n) { size_t i = 0; for (; i < 7 && n[i]; i++) asked[i] = n[i]; asked[i] = 0; }
static bool asked_for(const char *n) { size_t i = 0; for (; n[i] && asked[i] == n[i]; i++); return asked[i] == n[i]; }
static int pton_rv[2], pton_errno; static uint8_t pton_bytes[2][16]; static size_t pton_calls;
extern "C" {
int getaddrinfo(const char *name, const char *, const addrinfo *hints, addrinfo **r) { note_name(name); sym_check(!hints || hints->ai_family == AF_UNSPEC, "any family will do"); if (lookup_rv) { errno = os_errno; return lookup_rv; } for (size_t i = 0; i < nfound; i++) { infos[i] = {}; infos[i].ai_family = found[i].ss_family; infos[i].ai_addr = (sockaddr *) &found[i]; infos[i].ai_addrlen = found[i].ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); infos[i].ai_next = i + 1 < nfound ? &infos[i + 1] : nullptr; } *r = nfound ? infos : nullptr; return 0; }
void freeaddrinfo(addrinfo *a) noexcept { sym_check(a == infos, "the result of a lookup is freed"); freed++; }
int inet_pton(int family, const char *text, void *out) noexcept { size_t k = family == AF_INET6; sym_check(k || family == AF_INET, "a known family"); note_name(text); pton_calls++; if (pton_rv[k] == 1) memcpy(out, pton_bytes[k], k ? 16 : 4); if (pton_rv[k] < 0) errno = pton_errno; return pton_rv[k]; }
}
