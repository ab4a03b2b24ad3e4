// What the sample client (bnl/http3/app/endpoint) is made of, over models of the operating system (appmodel.h).
#include "appmodel.h"
#include <os/dns.hpp>
#include <os/fd.hpp>
#include <os/ip/address.hpp>
#include <os/socket/udp.hpp>
#include <sd/event/loop.hpp>
#include <optional>
using app_error = ::error;
template <class T> static T *place(void *p) { return (T *) p; }

// ---------------------------------------------------------------- C42: descriptors and sockets
ENTRY(fd_ops) {
  os_reset(); size_t depth = sym_param("depth", 3); std::optional<os::fd> f[3]; int owns[3] = {-1, -1, -1}, closed[12] = {};
  for (size_t step = 0; step < depth; step++) {
    size_t op = pick(4, "operation"), a = pick(2, "descriptor"), b = op == 1 || op == 2 ? pick(2, "other") : 0; auto gone = [&](size_t i) { if (owns[i] != -1) closed[owns[i] - FD0]++; owns[i] = -1; };
    if (op == 0) { if (f[a]) return; int n = new_fd(); f[a].emplace(n); owns[a] = n; }
    if (op == 1) { if (f[a] || !f[b] || a == b) return; f[a].emplace(std::move(*f[b])); owns[a] = owns[b]; owns[b] = -1; }
    if (op == 2) { if (!f[a] || !f[b]) return; *f[a] = std::move(*f[b]); if (a != b) { gone(a); owns[a] = owns[b]; owns[b] = -1; } sym_reach("assigned"); }
    if (op == 3) { if (!f[a]) return; f[a].reset(); gone(a); }
    if (op == 4) { if (f[a]) return; f[a].emplace(); owns[a] = -1; }
    for (size_t i = 0; i < 3; i++) if (f[i]) sym_check((int) *f[i] == owns[i] && (*f[i] == owns[i]), "a descriptor holds what its history gave it");
    for (int i = 0; i < nfds; i++) sym_check(fds[i].closed == closed[i], "a descriptor is closed when its owner goes or is replaced, not before"); }
  for (auto &x : f) x.reset(); os_end(); sym_reach("end"); }

ENTRY(udp_open) {
  os_reset(); address_in peer = any_address("peer"), local = any_address("local"); to_storage(local_sa, local); os_fail = pick(3, "failing call"); os_errno = some_errno(); int thrown = 0;
  try { os::socket::udp u(ip::endpoint(address_of(peer), peer.port)); sym_check(!os_failed, "a socket that cannot be opened is not constructed"); sym_check(nfds == 1 && live_fd(u.fd()), "a socket has one descriptor"); sym_check(bound_family == (peer.v6 ? AF_INET6 : AF_INET), "a socket has the family of the peer"); sym_check(same(connected, peer), "a socket is connected to the peer");
    sym_check(is(u.peer(), peer), "the peer is the one connected to"); sym_check(is(u.local(), local), "the local end is the one that the system chose");
    os::socket::udp v(std::move(u)); sym_check(live_fd(v.fd()) && is(v.peer(), peer), "a moved socket is the same socket"); u = std::move(v); sym_check(live_fd(u.fd()), "a moved socket is the same socket"); sym_reach("open"); }
  catch (const std::system_error &e) { thrown = e.code().value(); sym_check(e.code() == std::error_code(os_errno, std::system_category()), "the failure is the one of the system"); sym_reach("failed"); }
  sym_check((thrown != 0) == (os_failed != nullptr), "a failure of the system is reported"); os_end(); }

// a pending datagram queue, a schedule of the socket's states
ENTRY(udp_io) {
  os_reset(); size_t depth = sym_param("depth", 4), big = sym_param("big", 0); uint8_t port = 1; (void) port; os::socket::udp u(ip::endpoint(ipv4::address(0x0100007fu), 443)); size_t sizes[] = {1, 3, 21}; datagram added[8]; size_t nadded = 0; can_block = true; race = sym_param("race", 1); size_t got = 0;
  for (size_t step = 0; step < depth; step++) switch (pick(4, "operation")) {
    case 0: { datagram &d = added[nadded++]; d.n = sizes[pick(big ? 2 : 1, "size")]; sym_fill(d.b, d.n, "out"); u.add(base::buffer(d.b, d.n)); break; }
    case 1: { size_t before = nwire, s = sends; os_fail = pick(1, "failing") ? os_calls + 1 : 0; os_errno = some_errno(); size_t bl = blocks; result<void> r = u.send(); bool failed = os_failed; os_failed = nullptr; os_fail = 0;
      if (before == nadded) { sym_check(!r && r.error() == app_error::idle && sends == s, "nothing to send is idle"); sym_reach("idle"); break; }
      sym_check(sends == s + 1, "one call sends one datagram"); if (failed) { sym_check(!r && r.error() == std::error_code(os_errno, std::system_category()), "a failure to send is reported"); sym_check(nwire == before, "a failed datagram is kept"); sym_reach("send failed"); break; }
      if (blocks != bl) { sym_check(!r && r.error() == std::errc::resource_unavailable_try_again, "a full socket asks to try again"); sym_reach("full"); break; }
      sym_check(bool(r), "a sent datagram is a success"); break; }
    case 2: if (to_arrive < 6) { datagram &d = arriving[to_arrive++]; size_t s[] = {0, 2, 21}; d.n = s[pick(big ? 2 : 1, "size")]; sym_fill(d.b, d.n, "in"); if (!race || pick(1, "now")) arrived = to_arrive; } break;
    case 3: { os_fail = pick(2, "failing"); if (os_fail) os_fail += os_calls; os_errno = some_errno(); size_t before = taken; result<base::buffer> r = u.recv(); bool failed = os_failed; os_failed = nullptr; os_fail = 0;
      if (failed) { sym_check(!r && r.error() == std::error_code(os_errno, std::system_category()), "a failure to receive is reported"); sym_check(taken == before, "a datagram is not lost in a failure"); sym_reach("recv failed"); break; }
      if (!r) { sym_check(r.error() == std::errc::resource_unavailable_try_again && taken == before, "without a datagram the socket asks to try again"); sym_reach("empty"); break; }
      sym_check(taken == before + 1, "one call receives one datagram"); datagram &d = arriving[got++]; sym_check(r.value().size() == d.n && sym_eqmem(r.value().data(), d.b, d.n), "a datagram is received whole"); sym_trace(d.n); sym_reach("received"); break; }
    case 4: { pending_error = pick(1, "pending") ? some_errno() : 0; int e = pending_error; os_fail = pick(1, "failing") ? os_calls + 1 : 0; os_errno = some_errno(); std::error_code c = u.error(); bool failed = os_failed; os_failed = nullptr; os_fail = 0; sym_check(c == std::error_code(failed ? os_errno : e, std::system_category()) || (!failed && !e && !c), "the pending error of a socket is the one of the system"); sym_reach("error"); break; } }
  for (size_t i = 0; i < nwire; i++) sym_check(i < nadded && wire[i].n == added[i].n && sym_eqmem(wire[i].b, added[i].b, wire[i].n), "datagrams are sent whole, once, in order");
  sym_check(got == taken, "every datagram taken from the system is delivered"); can_block = false; for (size_t i = nwire; i < nadded; i++) sym_check(bool(u.send()), "a kept datagram can be sent later"); sym_check(nwire == nadded && sym_eqmem(wire[nadded ? nadded - 1 : 0].b, added[nadded ? nadded - 1 : 0].b, nadded ? added[nadded - 1].n : 0), "no datagram is lost"); sym_reach("end"); }

// ---------------------------------------------------------------- C43: event loop, lookup, addresses
static int seen_io[3], seen_timer[3]; static uint32_t seen_events; static uint64_t seen_usec; static bool handler_fails;
static result<void> answer() { if (handler_fails) return app_error::finished; return base::success(); }
ENTRY(event_sources) {
  os_reset(); size_t depth = sym_param("depth", 3); { sd::event::loop loop; os::fd fd(new_fd()); os_fail = pick(3, "failing call") + 1; os_errno = some_errno(); if (os_fail == 4) os_fail = 0; else os_fail += os_calls - 1; bool f0 = os_fail == os_calls + 1, f1 = os_fail == os_calls + 2, f2 = os_fail == os_calls + 3;
    std::optional<sd::event::io> io[3]; std::optional<sd::event::timer> timer[3]; int io_at = -1, timer_at = -1; int id = 0; (void) id;
    { result<sd::event::io> r = loop.io(fd); sym_check(bool(r) == !f0, "a failure to add a source is reported"); if (!r) sym_check(r.error() == std::error_code(os_errno, std::system_category()), "the failure is the one of the loop"); else { io[0].emplace(std::move(r).value()); io_at = 0; sym_check(nsrc == 1 && src[0].fd == (int) fd && (src[0].events & (EPOLLIN | EPOLLOUT)) == (EPOLLIN | EPOLLOUT), "a source watches its descriptor"); } }
    { result<sd::event::timer> r = loop.timer(); sym_check(bool(r) == !f1, "a failure to add a source is reported"); if (!r) sym_check(r.error() == std::error_code(os_errno, std::system_category()), "the failure is the one of the loop"); else { timer[0].emplace(std::move(r).value()); timer_at = 0; sym_check(src[nsrc - 1].when == UINT64_MAX || src[nsrc - 1].enabled == SD_EVENT_OFF, "a new timer does not fire"); } }
    { result<void> r = loop.signal(SIGINT); sym_check(bool(r) == !(f2 || os_failed != nullptr && !f0 && !f1), "a failure to watch a signal is reported"); if (r) sym_check((nblocked & 1) && src[nsrc - 1].sig == SIGINT, "a watched signal is blocked and added"); }
    os_fail = 0; sd_event_source *si = io_at == 0 ? &src[0] : nullptr, *st = timer_at == 0 ? &src[si ? 1 : 0] : nullptr; memset(seen_io, 0, sizeof seen_io); memset(seen_timer, 0, sizeof seen_timer); int want_io[3] = {}, want_timer[3] = {}, mark_io = 0, mark_timer = 0;
    if (si) io[0]->on_io([](uint32_t e) { seen_io[0]++; seen_events = e; return answer(); }); if (st) timer[0]->on_expire([](sd::event::duration d) { seen_timer[0]++; seen_usec = d.count(); return answer(); });
    for (size_t step = 0; step < depth; step++) switch (pick(6, "operation")) {
      case 0: { if (!si || src[0].enabled == SD_EVENT_OFF) break; uint32_t e = (uint32_t) sym_int(4, "events"); handler_fails = pick(1, "handler fails"); int r = fire_io(*si, e); want_io[mark_io]++; sym_check((r < 0) == handler_fails, "a handler that fails tells the loop"); sym_check(seen_events == e, "a handler gets the events"); sym_reach("io"); break; }
      case 1: { if (!st || st->enabled == SD_EVENT_OFF) break; handler_fails = pick(1, "handler fails"); uint64_t w = st->when; int r = fire_timer(*st); want_timer[mark_timer]++; sym_check((r < 0) == handler_fails, "a handler that fails tells the loop"); sym_check(seen_usec == w, "a handler gets the time"); sym_reach("timer"); break; }
      case 2: { if (!st) break; uint64_t t = sym_int(8, "time"); timer[timer_at]->update(sd::event::duration(t)); sym_check(st->when == t && st->enabled == SD_EVENT_ONESHOT, "a timer is set once to the time given"); break; }
      case 3: { if (!si) break; int to = (io_at + 1) % 3; if (io[to]) { *io[to] = std::move(*io[io_at]); sym_reach("assigned"); } else io[to].emplace(std::move(*io[io_at])); sym_check(*io[to] && !*io[io_at], "a source is where it was moved to"); if (pick(1, "destroy")) io[io_at].reset(); io_at = to; break; }
      case 4: { if (!st) break; int to = (timer_at + 1) % 3; if (timer[to]) *timer[to] = std::move(*timer[timer_at]); else timer[to].emplace(std::move(*timer[timer_at])); sym_check(*timer[to] && !*timer[timer_at], "a timer is where it was moved to"); if (pick(1, "destroy")) timer[timer_at].reset(); timer_at = to; break; }
      case 5: { if (!si) break; mark_io = 1 - mark_io; if (mark_io) io[io_at]->on_io([](uint32_t e) { seen_io[1]++; seen_events = e; return answer(); }); else io[io_at]->on_io([](uint32_t e) { seen_io[0]++; seen_events = e; return answer(); }); break; }
      case 6: { if (!st) break; mark_timer = 1 - mark_timer; if (mark_timer) timer[timer_at]->on_expire([](sd::event::duration d) { seen_timer[1]++; seen_usec = d.count(); return answer(); }); else timer[timer_at]->on_expire([](sd::event::duration d) { seen_timer[0]++; seen_usec = d.count(); return answer(); }); break; } }
    for (int i = 0; i < 2; i++) sym_check(seen_io[i] == want_io[i] && seen_timer[i] == want_timer[i], "each event calls the handler set last, once"); }
  os_end(); sym_reach("end"); }
ENTRY(event_replace) { // two sources of a kind; one takes the place of the other, which is gone then
  os_reset(); { sd::event::loop loop; os::fd f0(new_fd()), f1(new_fd()); memset(seen_io, 0, sizeof seen_io); memset(seen_timer, 0, sizeof seen_timer); handler_fails = false; result<sd::event::io> a = loop.io(f0), b = loop.io(f1); result<sd::event::timer> c = loop.timer(), d = loop.timer(); sym_check(a && b && c && d && nsrc == 4, "sources are added"); sd::event::io x(std::move(a).value()), y(std::move(b).value()); sd::event::timer t(std::move(c).value()), u(std::move(d).value());
    x.on_io([](uint32_t e) { seen_io[0]++; seen_events = e; return answer(); }); y.on_io([](uint32_t e) { seen_io[1]++; seen_events = e; return answer(); }); t.on_expire([](sd::event::duration d) { seen_timer[0]++; seen_usec = d.count(); return answer(); }); u.on_expire([](sd::event::duration d) { seen_timer[1]++; seen_usec = d.count(); return answer(); });
    uint64_t w0 = sym_int(8, "time"), w1 = sym_int(8, "other time"); t.update(sd::event::duration(w0)); u.update(sd::event::duration(w1)); sym_check(src[2].when == w0 && src[3].when == w1, "each timer is set");
    unsigned fired = 0; uint32_t e0 = (uint32_t) sym_int(4, "events"); auto all = [&](bool io0, bool tm0) { if (io0) { size_t n = seen_io[0]; fire_io(src[0], e0); sym_check(seen_io[0] == (int) n + 1 && seen_events == e0, "a source calls its own handler"); } { size_t n = seen_io[1]; fire_io(src[1], ~e0); sym_check(seen_io[1] == (int) n + 1 && seen_events == (uint32_t) ~e0, "a source calls its own handler"); } if (tm0) { size_t n = seen_timer[0]; fire_timer(src[2]); sym_check(seen_timer[0] == (int) n + 1 && seen_usec == w0, "a timer calls its own handler"); } { size_t n = seen_timer[1]; fire_timer(src[3]); sym_check(seen_timer[1] == (int) n + 1 && seen_usec == w1, "a timer calls its own handler"); } fired++; };
    all(true, true); if (pick(1, "the I/O source is replaced")) { x = std::move(y); sym_check(src[0].refs == 0 && src[1].refs == 1, "the source replaced is released, the other is kept"); bool ti = pick(1, "the timer is replaced"); if (ti) { t = std::move(u); sym_check(src[2].refs == 0 && src[3].refs == 1, "the timer replaced is released, the other is kept"); } all(false, !ti); uint64_t w = sym_int(8, "later"); w1 = w; if (ti) { t.update(sd::event::duration(w)); sym_check(src[3].when == w && src[3].enabled == SD_EVENT_ONESHOT, "a timer is set where it was moved to"); } else { u.update(sd::event::duration(w)); sym_check(src[3].when == w, "a timer is set"); } all(false, !ti); sym_reach("replaced"); }
    sym_trace(fired); }
  os_end(); sym_reach("end"); }
static sd::event::loop *running; static size_t ending; static std::error_code end_code; static bool exit_ok;
ENTRY(event_loop) {
  os_reset(); os_fail = pick(1, "no loop"); os_errno = some_errno(); try { sd::event::loop a; sym_check(!os_failed, "a loop that cannot be made is not constructed"); now_usec = sym_int(8, "now"); auto clock = a.clock(); sym_check(a.now().count() == now_usec && clock().count() == now_usec, "the time is the one of the loop"); sd::event::loop b(std::move(a)); now_usec = sym_int(8, "later"); sym_check(b.now().count() == now_usec && clock().count() == now_usec, "a clock outlives a move of its loop");
    running = &b; ending = pick(4, "ending"); static const app_error E[] = {app_error::timeout, app_error::resolve, app_error::invalid_argument, app_error::idle, app_error::finished}; end_code = pick(1, "system") ? std::error_code(some_errno(), std::system_category()) : std::error_code(E[pick(4, "error")]);
    os_fail = ending == 3 ? os_calls + 1 : ending == 4 ? os_calls + 2 : 0; schedule = [] { result<void> r = ending == 0 ? running->exit() : running->exit(end_code); exit_ok = bool(r); if (!r) the_loop.exiting = true; }; result<void> r = b.run();
    if (ending == 0) sym_check(bool(r), "a loop that is left without an error succeeds"); else if (ending == 1 || ending == 2) sym_check(!r && r.error() == end_code, "a loop ends with the error it was left with"); else if (ending == 3) sym_check(!r && r.error() == std::error_code(os_errno, std::system_category()), "a failing loop reports it"); else sym_check(!exit_ok, "a loop that cannot be left reports it"); schedule = nullptr; sym_reach("end"); }
  catch (const std::exception &) { sym_check(os_failed, "constructing a loop only fails with the system"); sym_reach("no loop"); }
  schedule = nullptr; os_end(); }
static const struct { app_error e; const char *name; } APP[] = {{app_error::timeout, "timeout"}, {app_error::resolve, "resolve"}, {app_error::invalid_argument, "invalid argument"}, {app_error::idle, "idle"}, {app_error::finished, "finished"}};
ENTRY(app_errors) { size_t i = pick(4, "error"), j = pick(4, "other"); std::error_code a = APP[i].e, b = APP[j].e; sym_check(bool(a), "every error is one"); sym_check((a == b) == (i == j), "errors differ"); sym_check(a.message() == APP[i].name, "errors have their names"); sym_check(std::string(a.category().name()) != "bnl-http3" && std::string(a.category().name()) != "bnl-quic", "the category has a name of its own"); int c = (int) sym_int(4, "code"); bool known = false; for (auto &e : APP) if (std::error_code(e.e).value() == c) known = true; if (!known) sym_check(a.category().message(c) == "unknown", "other codes have no name"); sym_reach("end"); }

ENTRY(lookup) {
  os_reset(); freed = 0; address_in a[4]; nfound = 1 + pick(sym_param("n", 3) - 1, "addresses"); for (size_t i = 0; i < nfound; i++) { a[i] = any_address("address"); to_storage(found[i], a[i]); } lookup_rv = (int) pick(12, "lookup") * -1; os_errno = some_errno(); ip::host host("hst");
  result<std::vector<ip::address>> r = os::dns::resolve(host); sym_check(asked_for("hst"), "the host asked for is looked up");
  if (lookup_rv) { sym_check(!r && r.error(), "a failed lookup is an error"); sym_check(lookup_rv == EAI_SYSTEM ? r.error() == std::error_code(os_errno, std::system_category()) : r.error() == app_error::resolve, "the error is the one of the lookup"); sym_check(!freed, "nothing is freed that was not given"); sym_reach("failed"); return; }
  sym_check(bool(r), "a lookup succeeds"); sym_check(freed == 1, "the result of a lookup is freed once"); size_t n = 0; auto &v = r.value();
  for (size_t i = 0; i < nfound; i++) { bool dup = false; for (size_t j = 0; j < i; j++) if (a[j].v6 == a[i].v6 && sym_eqmem(a[j].b, a[i].b, a[i].v6 ? 16 : 4)) dup = true; if (dup) { sym_reach("duplicate"); continue; } sym_check(n < v.size() && is(v[n], a[i]), "every address found is given once, in order"); n++; }
  sym_check(n == v.size(), "no other address is given"); sym_reach("end"); }
ENTRY(parse_address) {
  os_reset(); for (int k = 0; k < 2; k++) { pton_rv[k] = (int) pick(2, "result") - 1; sym_fill(pton_bytes[k], k ? 16 : 4, "bytes"); } pton_errno = some_errno(); errno = 0; pton_calls = 0; sym_assume(pton_rv[0] >= 0 || true); result<ip::address> r = os::make_address("text"); sym_check(asked_for("text"), "the text is parsed");
  int k = pton_rv[0] == 0; bool v6 = k; int rv = pton_rv[k]; if (rv == 1) { address_in a; a.v6 = v6; memcpy(a.b, pton_bytes[k], 16); sym_check(bool(r) && is(r.value(), a), "an address is the bytes it was parsed to"); sym_reach("parsed"); }
  else if (rv < 0) { sym_check(!r && r.error() == std::error_code(pton_errno, std::system_category()), "a failure is the one of the system"); sym_reach("failed"); } else { sym_check(!r && r.error(), "a text that is no address is an error"); sym_reach("no address"); } }
