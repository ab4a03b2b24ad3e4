// Every input representation the decoders accept.
#pragma once
#include "ref.h"
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffer_view.hpp>
#include <bnl/base/buffers.hpp>
using namespace bnl;
// any cut of n bytes; with sparse, in the middle of long inputs only one
static size_t pick_cut(size_t n, const char *name = "cut") {
  if (n <= 24 || !sym_param("sparse", 0)) return pick_big(n, name); size_t k = pick(20, name); return k < 10 ? k : k < 20 ? n - (k - 10) : n / 2; }
// calls f(sequence) with the n bytes at a held in a buffer, in a chain cut at any place(s), and in lookaheads over both
template <class F> static void each_seq(const uint8_t *a, size_t n, F f, size_t kinds = 3) {
  switch (pick(kinds, "representation")) {
    case 0: { base::buffer b(a, n); f(b); sym_reach("buffer"); break; }
    case 1: { base::buffers c; size_t k = pick_cut(n); size_t k2 = sym_param("cuts", 1) > 1 ? k + pick(n - k, "second cut") : n; c.push(base::buffer(a, k)); if (k2 > k || k == n) c.push(base::buffer(a + k, k2 - k)); if (k2 < n) c.push(base::buffer(a + k2, n - k2)); f(c); sym_reach("chain"); break; }
    case 2: { base::buffer b(a, n); base::buffer::lookahead_type l(b); f(l); sym_check(b.size() == n, "a lookahead leaves its buffer alone"); sym_reach("lookahead"); break; }
    default: { base::buffers c; size_t k = pick_cut(n); c.push(base::buffer(a, k)); c.push(base::buffer(a + k, n - k)); base::buffers::lookahead_type l(c); f(l); sym_check(c.size() == n, "a lookahead leaves its chain alone"); sym_reach("chain lookahead"); break; }
  } }
// the sequence now holds exactly the bytes a[used..n)
template <class S> static void rest_is(const S &s, const uint8_t *a, size_t n, size_t used, const char *what) {
  sym_check(s.size() == n - used, what); for (size_t i = used; i < n && i < used + s.size(); i++) sym_check(s[i - used] == a[i], what); }
template <class F> static void each_owner(const uint8_t *a, size_t n, F f, size_t kinds = 1) {
  if (pick(kinds, "representation") == 0) { base::buffer b(a, n); f(b); sym_reach("buffer"); }
  else { base::buffers c; size_t k = pick_cut(n); c.push(base::buffer(a, k)); c.push(base::buffer(a + k, n - k)); f(c); sym_reach("chain"); } }
