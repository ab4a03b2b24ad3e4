// C44: the sample client (bnl/http3/app/endpoint/client.cpp) over models of the operating system (appmodel.h), the event loop and the QUIC connection.
#define AM_COUNT 96
#include "appmodel.h"
#include "io.h"
#include <os/dns.hpp>
#include <os/fd.hpp>
#include <os/socket/udp.hpp>
#include <sd/event/loop.hpp>
#include <client.hpp>
#include <optional>
#include <string>
#include <bnl/base/system_error.hpp>
#include <bnl/http3/header.hpp>
using app_error = ::error; int client_main(int argc, char **argv); // client.cpp, with main renamed
struct sent_event { uint64_t id; bool fin; uint8_t b[96]; size_t n; };
static sent_event given[12], expected_events[12]; static size_t ngiven, nexpected; // what HTTP/3 gave to the transport
static size_t q_made, q_next; static uint64_t q_expiry, q_timeout; static size_t expired; static uint8_t response[24000], body[16000]; static size_t response_n, cut_at, body_n, header_n; static std::string header_value(size_t i) { return i ? std::string(3 + i * 7 % 90, (char) ('a' + i % 26)) : "200"; } static std::string header_name(size_t i) { if (!i) return ":status"; std::string s = "x-"; s += (char) ('a' + i % 26); s += (char) ('a' + i / 26); return s; }
struct in_event { uint64_t id; bool fin; const uint8_t *p; size_t n; }; static in_event in_events[90]; static size_t n_in, group_end[91], n_groups, cur_event, cur_end, delivered_to;
static const uint64_t NEVER = UINT64_MAX / 1000; static bool acks, got_settings, got_end, got_error;
namespace bnl { namespace quic { namespace client {
connection::connection(const ip::host &host, path path, const params &params, clock clock) noexcept : clock_(clock) { sym_check(params.max_data >= 1024 && params.max_stream_data_bidi_local >= 1024, "the peer may answer a request"); sym_check(params.max_streams_uni >= 3 && params.max_stream_data_uni >= 1024, "the peer may open its control and QPACK streams"); sym_check(host.name() == base::string_view("hst"), "the transport gets the host"); sym_check(same(connected, address_in{false, {path.peer().address().bytes().data()[0], path.peer().address().bytes().data()[1], path.peer().address().bytes().data()[2], path.peer().address().bytes().data()[3]}, path.peer().port()}) && same(local_sa, address_in{false, {path.local().address().bytes().data()[0], path.local().address().bytes().data()[1], path.local().address().bytes().data()[2], path.local().address().bytes().data()[3]}, path.local().port()}), "the transport gets both ends of the path"); sym_check(clock_().count() == now_usec, "the transport gets the clock of the loop"); }
result<base::buffer> connection::send() { if (failing("quic send")) return error::crypto; if (q_next == q_made) return error::idle; uint8_t p[3] = {'P', (uint8_t) q_next, 0}; q_next++; if (q_expiry == NEVER) { uint64_t d = sym_int(2, "retransmission"); sym_assume(d > 0); q_expiry = now_usec + d; } return base::buffer(p, q_next % 2 ? 2 : 3); }
result<generator> connection::recv(base::buffer_view data) { if (failing("quic recv")) return error::crypto; sym_check(data.size() == 2 && data.data()[0] == 'D' && taken && data.data()[1] == taken - 1, "each datagram goes to the transport"); sym_check(cur_event == cur_end, "all events of a packet are taken before the next"); cur_event = taken == 1 ? 0 : group_end[taken - 2]; cur_end = group_end[taken - 1]; if (acks) q_made++; q_expiry = NEVER; return generator(*this); }
bool generator::next() { return cur_event < cur_end; }
result<event> generator::get() { (void) connection_; if (failing("quic event")) { cur_event = cur_end; return error::crypto; } in_event &e = in_events[cur_event++]; data d; d.id = e.id; d.fin = e.fin; d.buffer = base::buffer(e.p, e.n); return event(std::move(d)); }
duration connection::timeout() const noexcept { return duration(q_timeout); } duration connection::expiry() const noexcept { return duration(q_expiry); }
result<void> connection::expire() { if (failing("quic expire")) return error::crypto; sym_check(now_usec >= q_expiry, "the transport is told of an expiry when it has come"); expired++; q_made++; q_expiry = NEVER; return base::success(); }
result<void> connection::add(quic::event e) { if (failing("quic add")) return error::crypto; sym_check(e == event::type::data && ngiven < 12 && e.data.buffer.size() <= 96, "(harness) the event fits"); sent_event &g = given[ngiven++]; g.id = e.data.id; g.fin = e.data.fin; g.n = e.data.buffer.size(); memcpy(g.b, e.data.buffer.data(), g.n); q_made++; return base::success(); }
} } }
static void ask(http3::request::handle &h) { sym_check(bool(h.header({":method", "GET"})) && bool(h.header({":scheme", "https"})) && bool(h.header({":authority", "hst"})) && bool(h.header({":path", "/index.html"})) && bool(h.start()) && bool(h.fin()), "a request is accepted"); }
static void reference() { // what a request consists of
  nexpected = 0; http3::client::connection c; auto r = c.request(); http3::request::handle h = std::move(r).value(); ask(h); for (;;) { auto e = c.send(); if (!e) break; sent_event &x = expected_events[nexpected++]; x.id = e.value().data.id; x.fin = e.value().data.fin; x.n = e.value().data.buffer.size(); memcpy(x.b, e.value().data.buffer.data(), x.n); } }
static size_t steps, ops, handled, body_seen, headers_seen; static size_t stop_at; static std::error_code want; static bool have_want; static bool bad_response; static bool started_late, watched;
static void many() { // a response of many headers and a long body, in many pieces
  header_n = sym_param("headers", 30); body_n = sym_param("body", 5000); size_t piece = sym_param("piece", 250), n = 0, b = 0; static uint8_t block[8000]; block[n++] = 0; block[n++] = 0; block[n++] = 0xd9; for (size_t i = 1; i < header_n; i++) { std::string k = header_name(i), v = header_value(i); block[n++] = (uint8_t) (0x20 | k.size()); for (char c : k) block[n++] = (uint8_t) c; block[n++] = (uint8_t) v.size(); for (char c : v) block[n++] = (uint8_t) c; }
  size_t m = 0; auto head = [&](uint8_t type, size_t len) { response[m++] = type; response[m++] = (uint8_t) (0x40 | len >> 8); response[m++] = (uint8_t) len; }; head(1, n); memcpy(response + m, block, n); m += n;
  for (size_t i = 0; i < body_n; i++) body[i] = (uint8_t) (i * 7 + (i >> 8)); body[body_n / 2] = (uint8_t) sym_int(1, "middle of the body"); body[body_n - 1] = (uint8_t) sym_int(1, "end of the body"); for (size_t i = 0; b < body_n; i++) { size_t k = 1 + i * 311 % 900; if (k > body_n - b) k = body_n - b; head(0, k); memcpy(response + m, body + b, k); m += k; b += k; }
  response_n = m; n_in = 1; for (size_t at = 0; at < response_n; at += piece) { bool last = at + piece >= response_n; in_events[n_in++] = {0, last, response + at, last ? response_n - at : piece}; } }
static void world() {
  to_storage(local_sa, address_in{false, {10, 0, 0, 2}, 5000}); reference(); ngiven = 0; q_made = sym_param("first", 1); q_next = 0; q_expiry = NEVER; q_timeout = 30000000; expired = 0; loop_safe = true; now_usec = sym_int(4, "now"); acks = pick(1, "acknowledgements"); handled = body_seen = headers_seen = 0; got_settings = got_end = got_error = have_want = false; cur_event = cur_end = 0;
  static const uint8_t control[] = {0, 4, 0}; bad_response = sym_param("bad", 0); response_n = 0; if (bad_response) { uint8_t r[] = {0, 1, 'x'}; memcpy(response, r, 3); response_n = 3; } else { uint8_t r[] = {1, 3, 0, 0, 0xd9, 0, 2, 0, 0}; memcpy(response, r, 9); sym_fill(response + 7, 2, "body"); response_n = 9; memcpy(body, response + 7, 2); body_n = 2; } header_n = 1;
  cut_at = sym_param("cuts", 0) ? pick(response_n, "cut") : sym_param("cut", 5) % (response_n + 1); in_events[0] = {3, false, control, 3}; in_events[1] = {0, false, response, cut_at}; in_events[2] = {0, true, response + cut_at, response_n - cut_at}; n_in = 3; if (sym_param("body", 0)) many();
  n_groups = 0; size_t every = sym_param("body", 0) ? 1 + pick(2, "events of a packet") * 3 : 0; for (size_t i = 0; i < n_in; i++) if (i + 1 == n_in || (every ? i % every == every - 1 : pick(1, "packet ends"))) group_end[n_groups++] = i + 1; for (size_t i = 0; i < n_groups; i++) { arriving[i].n = 2; arriving[i].b[0] = 'D'; arriving[i].b[1] = (uint8_t) i; } to_arrive = n_groups; arrived = taken = 0; }
static result<void> on_event(http3::event e) {
  sym_check(!got_end && !got_error, "nothing follows the end of the response or an error of the handler"); if (handled++ == stop_at) { got_error = true; have_want = true; want = app_error::resolve; return app_error::resolve; }
  switch (e) { case http3::event::type::settings: sym_check(!got_settings, "settings come once"); got_settings = true; break;
    case http3::event::type::header: { std::string k = header_name(headers_seen), v = header_value(headers_seen); sym_check(headers_seen < header_n && !body_seen && e.header.header.name() == base::string_view(k) && e.header.header.value() == base::string_view(v), "every header comes once, unchanged, in order"); headers_seen++; } break;
    case http3::event::type::body: sym_check(headers_seen == header_n && body_seen + e.body.buffer.size() <= body_n && sym_eqmem(e.body.buffer.data(), body + body_seen, e.body.buffer.size()), "the body comes after the headers, once, unchanged"); body_seen += e.body.buffer.size(); break;
    case http3::event::type::finished: sym_check(body_seen == body_n, "the end comes last"); got_end = true; have_want = true; want = std::error_code(); return app_error::finished; }
  return base::success(); }
static void invariants(bool received) {
  for (size_t i = 0; i < ngiven; i++) sym_check(i < nexpected && given[i].id == expected_events[i].id && given[i].fin == expected_events[i].fin && given[i].n == expected_events[i].n && sym_eqmem(given[i].b, expected_events[i].b, given[i].n), "the transport gets what HTTP/3 has to send, once, in order");
  for (size_t i = 0; i < nwire; i++) sym_check(wire[i].n == (i % 2 ? 3u : 2u) && wire[i].b[0] == 'P' && wire[i].b[1] == i, "packets are sent whole, once, in order"); sym_check(nwire <= q_next, "only packets are sent");
  if (the_loop.exiting || os_failed) return;
  if (watched && received && !bad_response && cur_event == n_in) sym_check(got_end, "the handler gets every event, to the end of the response"); if (watched && received && !bad_response && cur_event) sym_check(got_settings, "the handler gets the settings");
  if (!last_blocked) { sym_check(q_next == q_made && nwire == q_next && ngiven == nexpected, "everything that can be sent is sent before waiting"); sym_reach("drained"); } else { sym_check(nwire + 1 == q_next, "a packet that does not fit waits for room, and no other overtakes it"); sym_reach("waiting"); }
  if (received) { sym_check(taken == arrived, "everything that can be received is received before waiting"); sym_reach("received"); }
  bool idle = false, due = false; for (size_t i = 0; i < nsrc; i++) if (src[i].kind == 2 && src[i].enabled == SD_EVENT_ONESHOT) { if (src[i].when == now_usec + q_timeout) idle = true; if (src[i].when == q_expiry) due = true; } sym_check(idle, "the idle timer runs from the last activity"); sym_check(due || q_expiry == NEVER, "the retransmission timer runs to the expiry of the transport"); }
static sd_event_source *io_source() { for (size_t i = 0; i < nsrc; i++) if (src[i].kind == 1) return &src[i]; return nullptr; }
static void run_world() {
  bool idle = false; for (size_t i = 0; i < nsrc; i++) if (src[i].kind == 2 && src[i].enabled == SD_EVENT_ONESHOT && src[i].when <= now_usec + q_timeout) idle = true; sym_check(idle, "the idle timer runs from the start");
  sd_event_source *s = io_source(); sym_check(s && s->enabled != SD_EVENT_OFF && (s->events & EPOLLIN) && (s->events & EPOLLOUT), "the socket is watched"); 
  for (size_t i = 0; i < ops && !the_loop.exiting && !os_failed; i++) {
    size_t op = i ? pick(4, "event") : sym_param("op0", 5) < 5 ? sym_param("op0", 5) : pick(4, "event"); bool received = op == 1 || op == 2;
    if (op < 4) { uint64_t d = sym_int(1, "time"); now_usec += d; for (size_t k = 0; k < nsrc; k++) if (src[k].kind == 2 && src[k].enabled == SD_EVENT_ONESHOT) sym_assume(src[k].when > now_usec); }
    if (received) { size_t limit = ngiven == nexpected && nwire == q_next ? to_arrive : group_end[0] == 1; /* a response follows the request */ if (arrived >= limit) continue; size_t some = limit - arrived; arrived += some > 8 ? pick(1, "arrivals") ? some : 7 : 1 + pick(some - 1, "arrivals"); }
    if (op == 0) { if (fire_io(*s, EPOLLOUT) >= 0) invariants(false); }
    if (op == 1) { if (fire_io(*s, EPOLLIN) >= 0) invariants(true); } if (op == 2) { if (fire_io(*s, EPOLLIN | EPOLLOUT) >= 0) invariants(true); }
    if (op == 3) { pending_error = pick(1, "pending") ? ECONNREFUSED : 0; int e = pending_error; fire_io(*s, EPOLLERR); if (os_failed) break; sym_check((e != 0) == the_loop.exiting, "a pending error of the socket ends the client"); if (e) { have_want = true; want = std::error_code(e, std::system_category()); sym_reach("socket error"); } }
    if (op == 4) { sd_event_source *t = nullptr; for (size_t k = 0; k < nsrc; k++) if (src[k].kind == 2 && src[k].enabled == SD_EVENT_ONESHOT && src[k].when < NEVER && (!t || src[k].when < t->when)) t = &src[k]; if (!t) { sym_check(q_expiry == NEVER, "a timer runs when the transport waits"); continue; } size_t x = expired; bool due = t->when >= q_expiry, waited = last_blocked; now_usec = t->when; size_t before = q_made; fire_timer(*t); if (os_failed) break;
      if (due) { sym_check(expired == x + 1 && !the_loop.exiting, "the transport is told of its expiry"); (void) before; (void) waited; invariants(false); sym_reach("retransmission"); } else { sym_check(the_loop.exiting && expired == x, "an idle connection ends the client"); have_want = true; want = app_error::timeout; sym_reach("timeout"); } } }
  if (!the_loop.exiting && !os_failed) { can_block = false; fire_io(*s, EPOLLOUT); if (!os_failed) invariants(false); if (!os_failed && !the_loop.exiting) { sd_event_exit(&the_loop, 0); if (!have_want) { have_want = true; want = std::error_code(); } sym_reach("signal"); } } }
ENTRY(client_history) {
  os_reset(); watched = true; ops = sym_param("depth", 3); world(); stop_at = sym_param("stop", 0) ? pick(3, "stop") : 99; size_t fail = sym_param("fail", 0); os_errno = ENETDOWN;
  { client made(ip::host("hst"), ip::endpoint(ipv4::address(0x0100000au), 443)); std::optional<client> moved; if (sym_param("move", 0)) moved.emplace(std::move(made)); client &c = moved ? *moved : made; sym_check(nblocked == 3, "the client ends at SIGINT and SIGTERM"); { result<http3::request::handle> r = c.request(); sym_check(bool(r), "a request can be made"); http3::request::handle h = std::move(r).value(); ask(h); }
    can_block = sym_param("block", 1); if (fail) { os_calls = 0; os_fail = 1 + pick(fail - 1, "failing call"); } schedule = run_world; result<void> r = c.run(on_event);
    if (os_failed) { std::error_code e = os_failed[0] == 'q' ? make_error_code(quic::error::crypto) : std::error_code(os_errno, std::system_category()); sym_check((!r && r.error() == e) || (got_end && r), "a failure ends the client with its error"); sym_reach("failure"); }
    else if (the_loop.exiting && bad_response && !have_want) { sym_check(!r && r.error() == http3::error::unexpected_frame, "a violation of the protocol ends the client with its error"); sym_reach("violation"); }
    else { sym_check(have_want, "the client ends for a reason"); sym_check(want ? !r && r.error() == want : bool(r), "the client ends with the reason it was ended for"); if (got_end) sym_reach("response"); if (got_error) sym_reach("handler error"); }
    schedule = nullptr; sym_trace(nwire); sym_trace(handled); }
  os_end(); sym_reach("end"); }
// a client that cannot be set up
ENTRY(client_start) {
  os_reset(); ops = 0; world(); loop_safe = false; os_errno = ENETDOWN; os_calls = 0; os_fail = 1 + pick(14, "failing call"); bool thrown = false;
  try { client c(ip::host("hst"), ip::endpoint(ipv4::address(0x0100000au), 443)); if (!os_failed) { sym_check(nblocked == 3, "the client ends at SIGINT and SIGTERM"); sym_reach("started"); } else { sym_check(false, "a client that could not be set up is not used"); } } catch (const std::system_error &e) { thrown = true; sym_check(os_failed && e.code() == std::error_code(os_errno, std::system_category()), "a failure to set up is reported with its error"); sym_reach("not started"); } catch (const std::bad_alloc &) { thrown = true; sym_check(os_failed && os_failed[0] == 's', "memory runs out in a call that failed"); }
  sym_trace(thrown); os_fail = 0; os_end(); sym_reach("end"); }
// the whole program: what it prints and how it exits
static size_t usage(const io_text &t) { size_t c = 0; for (size_t i = 0; i + 5 <= t.n; i++) if ((t.b[i] | 32) == 'u' && sym_eqmem(t.b + i + 1, "sage", 4)) c++; return c; }
ENTRY(client_main) {
  os_reset(); io_open(); ops = sym_param("depth", 2); os_errno = ENETDOWN; can_block = false; world(); size_t args = pick(2, "arguments"); stop_at = 99; got_settings = false;
  char name[] = "client", host[] = "hst", port[] = "443"; char *argv[] = {name, host, port, nullptr}; freed = 0; nfound = pick(1, "addresses") + 1; address_in first{false, {10, 0, 0, 1}, 0}, second{false, {10, 0, 0, 9}, 0}; to_storage(found[0], first); to_storage(found[1], second); lookup_rv = pick(1, "no such host") ? EAI_NONAME : 0;
  size_t fail = sym_param("fail", 0); os_calls = 0; if (fail) os_fail = 1 + pick(fail - 1, "failing call"); schedule = [] { run_world(); if (the_loop.exiting && !have_want && !os_failed) got_end = true; }; int rv = client_main((int) args + 1, argv); schedule = nullptr; bnl::base::logger = nullptr; os_fail = 0; io_close(); sym_check(!io_out.lost && !io_err.lost, "(harness) the text fits");
  if (args < 2) { sym_check(rv == 1 && nfds == 0 && nsrc == 0 && usage(io_out) + usage(io_err) == 1, "without a host and a port the program tells how it is used and fails"); sym_reach("usage"); }
  else if (lookup_rv) { sym_check(rv == 1 && nfds == 0, "a host that is not found fails the program"); sym_reach("no host"); }
  else if (os_failed) { sym_check(rv == 1 || got_end || the_loop.exiting, "a failure fails the program"); if (rv == 1) sym_reach("failed"); }
  else { sym_check(is(ip::endpoint(ipv4::address(0x0100000au), 443), address_in{false, {10, 0, 0, 1}, 443}) && same(connected, address_in{false, {10, 0, 0, 1}, 443}), "the program talks to the first address found and the port given");
    if (got_end) { std::string e; for (size_t i = 0; i < header_n; i++) e += header_name(i) + ": " + header_value(i) + "\n"; e += "\n"; e.append((const char *) body, body_n); sym_check(rv == 0, "a response is a success"); sym_check(io_out.n == e.size() && sym_eqmem(io_out.b, e.data(), e.size()), "the headers and the body of the response are printed whole, unchanged"); sym_trace(io_out.n); sym_reach("printed"); }
    else { sym_check((rv != 0) == bool(want), "without a response the program fails with its error"); sym_reach("ended"); } }
  sym_trace(rv); os_end(); sym_reach("end"); }
