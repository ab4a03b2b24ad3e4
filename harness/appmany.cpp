// A socket with many and with large datagrams.
#ifndef AM_BYTES
#define AM_BYTES 1500
#define AM_COUNT 128
#define AM_FOUND 300
#endif
#include "appmodel.h"
#include <os/dns.hpp>
#include <os/ip/address.hpp>
#include <os/socket/udp.hpp>
using app_error = ::error;
ENTRY(udp_many) {
  os_reset(); size_t count = sym_param("count", 100), max = sym_param("max", 1200), big = 0; uint8_t x = (uint8_t) sym_int(1, "content"); size_t mul = sym_param("step", 37); auto len = [&](size_t i) { return 1 + i * mul % max; }; for (size_t i = 0; i < count; i++) if (len(i) > len(big)) big = i; auto at = [&](size_t i, size_t k) { return i == big && k == len(big) / 2 ? x : (uint8_t) (i * 5 + k * 3 + (k >> 8)); };
  os::socket::udp u(ip::endpoint(ipv4::address(0x0100007fu), 443)); bool together = pick(1, "sent after all was added"); block_every = pick(1, "full now and then") ? 3 : 0; size_t tries = 0, done = 0;
  auto some = [&](size_t n) { while (n && done < count) { if (++tries > 3 * count + 9) { sym_check(false, "ends"); return; } size_t b = blocks; result<void> r = u.send(); if (blocks != b) { sym_check(!r && r.error() == std::errc::resource_unavailable_try_again, "a full socket asks to try again"); continue; } sym_check(bool(r), "a sent datagram is a success"); if (!r) return; done++; n--; } };
  for (size_t i = 0; i < count; i++) { base::buffer b(len(i)); for (size_t k = 0; k < len(i); k++) b[k] = at(i, k); u.add(std::move(b)); if (!together && i % 4 == 3) some(3); } some(count); sym_check(nwire == count, "no datagram is lost"); result<void> e = u.send(); sym_check(!e && e.error() == app_error::idle, "nothing to send is idle");
  for (size_t i = 0; i < count && i < nwire; i++) { sym_check(wire[i].n == len(i), "datagrams are sent whole"); for (size_t k = 0; k < wire[i].n; k += (k < 30 || k + 30 > wire[i].n || i == big ? 1 : 17)) sym_check(wire[i].b[k] == at(i, k), "unchanged and in order"); }
  for (size_t i = 0; i < count; i++) { arriving[i].n = len(i); for (size_t k = 0; k < len(i); k++) arriving[i].b[k] = at(i, k); } to_arrive = count;
  for (size_t i = 0; i < count; i++) { if (i == arrived) { result<base::buffer> r = u.recv(); sym_check(!r && r.error() == std::errc::resource_unavailable_try_again && taken == i, "without a datagram the socket asks to try again"); arrived = together ? count : i + 1; } result<base::buffer> r = u.recv(); sym_check(bool(r) && taken == i + 1, "one call receives one datagram"); if (!r) break; base::buffer &b = r.value(); sym_check(b.size() == len(i), "a datagram is received whole"); for (size_t k = 0; k < b.size() && k < len(i); k += (k < 30 || k + 30 > len(i) || i == big ? 1 : 17)) sym_check(b[k] == at(i, k), "unchanged and in order"); }
  sym_trace(tries); sym_reach("end"); }

ENTRY(lookup_many) { // many addresses of both families, some of them twice, one byte of one of any value
  os_reset(); freed = 0; lookup_rv = 0; nfound = sym_param("n", 20); size_t kind = pick(2, "repeated"); static address_in a[AM_FOUND]; for (size_t i = 0; i < nfound; i++) { size_t j = i; if (kind == 1 && i % 3 == 2) j = i - 2; if (kind == 2 && i > nfound / 2) j = i - nfound / 2; address_in &x = a[i]; x.v6 = j % 4 == 1; x.port = (uint16_t) (i % 5); for (size_t k = 0; k < 16; k++) x.b[k] = (uint8_t) (k == 1 ? j >> 8 : k == 3 ? j : k < 4 ? 7 : k + 1); if (i == nfound / 4) x.b[2] = (uint8_t) sym_int(1, "address"); if (i == nfound - 1) x.b[x.v6 ? 15 : 3] = (uint8_t) sym_int(1, "last address"); to_storage(found[i], x); }
  ip::host host("hst"); result<std::vector<ip::address>> r = os::dns::resolve(host); sym_check(asked_for("hst"), "the host asked for is looked up"); sym_check(bool(r), "a lookup succeeds"); sym_check(freed == 1, "the result of a lookup is freed once"); if (!r) return; auto &v = r.value(); size_t n = 0;
  for (size_t i = 0; i < nfound; i++) { bool dup = false; for (size_t j = 0; j < i; j++) if (a[j].v6 == a[i].v6 && sym_eqmem(a[j].b, a[i].b, a[i].v6 ? 16 : 4)) dup = true; if (dup) { sym_reach("duplicate"); continue; } sym_check(n < v.size() && is(v[n], a[i]), "every address found is given once, in order"); n++; } sym_check(n == v.size(), "no other address is given"); sym_trace(n); sym_reach("end"); }
