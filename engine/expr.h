// Hash-consed bit-vector expression DAG over symbolic input bytes.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

static const unsigned MAXSYM = 768; // symbolic bytes per path; symbol 0 is the "uninitialised byte"

struct Support {
  uint64_t w[MAXSYM / 64] = {};
  void set(unsigned i) { w[i >> 6] |= 1ULL << (i & 63); }
  bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  bool any() const { for (auto x : w) if (x) return true; return false; }
  bool intersects(const Support &o) const { for (unsigned i = 0; i < MAXSYM / 64; i++) if (w[i] & o.w[i]) return true; return false; }
  void merge(const Support &o) { for (unsigned i = 0; i < MAXSYM / 64; i++) w[i] |= o.w[i]; }
  unsigned count() const { unsigned n = 0; for (auto x : w) n += (unsigned) __builtin_popcountll(x); return n; }
  template <class F> void each(F f) const {
    for (unsigned i = 0; i < MAXSYM / 64; i++) { uint64_t x = w[i]; while (x) { unsigned b = (unsigned) __builtin_ctzll(x); f(i * 64 + b); x &= x - 1; } }
  }
};

enum class K : uint8_t { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Concat, Extract, SExt, Ite, Read };

struct Table { std::vector<std::pair<uint64_t, uint64_t>> v; /* index -> value, sorted by index */ uint32_t id; };

struct Expr {
  K k; uint8_t w; uint32_t id; uint64_t c = 0; // c: const value / sym id / extract lo
  const Expr *a = nullptr, *b = nullptr, *d = nullptr; const Table *t = nullptr;
  Support sup; bool rd = false; int one = -1; // rd: contains a table read; one: the only symbol, if there is just one
  mutable uint64_t gen = 0, val = 0; mutable uint64_t rgen = 0; mutable const Expr *rw = nullptr;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : ((int64_t) (v << (64 - w))) >> (64 - w); }

typedef std::vector<uint8_t> Model; // value of symbol i

struct ExprHash { size_t operator()(const Expr *e) const {
  uint64_t h = (uint64_t) e->k * 0x9E3779B97F4A7C15ULL ^ e->w; auto mix = [&](uint64_t x) { h = (h ^ x) * 0xff51afd7ed558ccdULL; h ^= h >> 32; };
  mix(e->c); mix((uint64_t) e->a >> 4); mix((uint64_t) e->b >> 4); mix((uint64_t) e->d >> 4); mix((uint64_t) e->t >> 4); return h; } };
struct ExprEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d && x->t == y->t; } };

class Exprs {
public:
  std::unordered_set<Expr *, ExprHash, ExprEq> set_;
  std::vector<Expr *> all;
  std::map<std::vector<std::pair<uint64_t, uint64_t>>, Table *> tables;
  uint64_t gen = 0, rgen = 0;

  E intern(const Expr &x) {
    auto it = set_.find(const_cast<Expr *>(&x));
    if (it != set_.end()) return *it;
    Expr *n = new Expr(x); n->id = (uint32_t) all.size();
    if (n->k == K::Sym) n->sup.set((unsigned) n->c);
    if (n->a) n->sup.merge(n->a->sup);
    if (n->b) n->sup.merge(n->b->sup);
    if (n->d) n->sup.merge(n->d->sup);
    n->rd = n->k == K::Read || n->k == K::Mul || n->k == K::UDiv || n->k == K::URem || n->k == K::SDiv || n->k == K::SRem || (n->a && n->a->rd) || (n->b && n->b->rd) || (n->d && n->d->rd);
    if (n->k == K::Sym) n->one = (int) n->c; else { n->one = -1; bool many = false; for (const Expr *x : {n->a, n->b, n->d}) if (x && x->k != K::Const) { if (x->one < 0 || (n->one >= 0 && n->one != x->one)) many = true; n->one = x->one; } if (many) n->one = -1; }
    all.push_back(n); set_.insert(n); return n;
  }
  E mk(K k, unsigned w, E a, E b = nullptr, E d = nullptr, uint64_t c = 0, const Table *t = nullptr) {
    Expr x; x.k = k; x.w = (uint8_t) w; x.a = a; x.b = b; x.d = d; x.c = c; x.t = t; return intern(x); }
  E con(uint64_t v, unsigned w) { Expr x; x.k = K::Const; x.w = (uint8_t) w; x.c = v & maskw(w); return intern(x); }
  E sym(unsigned i) { Expr x; x.k = K::Sym; x.w = 8; x.c = i; return intern(x); }
  E tru() { return con(1, 1); }
  E fls() { return con(0, 1); }

  const Table *table(std::vector<std::pair<uint64_t, uint64_t>> v) {
    auto it = tables.find(v); if (it != tables.end()) return it->second;
    Table *t = new Table; t->v = v; t->id = (uint32_t) tables.size(); tables[v] = t; return t; }

  static uint64_t tlook(const Table *t, uint64_t i) {
    auto it = std::lower_bound(t->v.begin(), t->v.end(), std::make_pair(i, (uint64_t) 0), [](const std::pair<uint64_t,uint64_t> &x, const std::pair<uint64_t,uint64_t> &y) { return x.first < y.first; });
    if (it == t->v.end() || it->first != i) return 0; return it->second; }

  E read(E idx, std::vector<std::pair<uint64_t, uint64_t>> v, unsigned w) {
    if (v.empty()) return con(0, w);
    bool same = true; for (auto &p : v) { p.second &= maskw(w); if (p.second != v[0].second) same = false; }
    if (same) return con(v[0].second, w);
    if (idx->k == K::Const) return con(tlook(table(v), idx->c), w);
    if (idx->k == K::Read) { // compose
      std::vector<std::pair<uint64_t, uint64_t>> n; const Table *t = table(v);
      for (auto &p : idx->t->v) n.push_back({p.first, tlook(t, p.second)});
      return read(idx->a, std::move(n), w);
    }
    if (w == 1) { // identity table over one bit
    }
    return mk(K::Read, w, idx, nullptr, nullptr, 0, table(std::move(v)));
  }
  template <class F> E mapRead(E r, unsigned w, F f) {
    std::vector<std::pair<uint64_t, uint64_t>> n; n.reserve(r->t->v.size());
    for (auto &p : r->t->v) n.push_back({p.first, f(p.second) & maskw(w)});
    return read(r->a, std::move(n), w); }

  static uint64_t fold(K k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    switch (k) {
      case K::Add: return (a + b) & m; case K::Sub: return (a - b) & m; case K::Mul: return (a * b) & m;
      case K::UDiv: return b ? a / b : m; case K::URem: return b ? a % b : a;
      case K::SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t) (x / y) & m; }
      case K::SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t) (x % y) & m; }
      case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
      case K::Shl: return b >= w ? 0 : (a << b) & m; case K::LShr: return b >= w ? 0 : a >> b;
      case K::AShr: return (uint64_t) (sx(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
      case K::Eq: return a == b; case K::Ult: return a < b; case K::Slt: return sx(a, w) < sx(b, w);
      default: abort();
    } }

  // --- constructors with simplification ---
  void pieces(E e, std::vector<E> &out) { // most significant first
    while (e->k == K::Concat) { out.push_back(e->a); e = e->b; }
    out.push_back(e); }
  E fromPieces(const std::vector<E> &in) {
    std::vector<E> p;
    for (E x : in) {
      std::vector<E> sub; pieces(x, sub);
      for (E y : sub) {
        if (!p.empty()) {
          E l = p.back();
          if (l->k == K::Const && y->k == K::Const && l->w + y->w <= 64) { p.back() = con((l->c << y->w) | y->c, l->w + y->w); continue; }
          E lb = l->k == K::Extract ? l->a : l, yb = y->k == K::Extract ? y->a : y;
          uint64_t llo = l->k == K::Extract ? l->c : 0, ylo = y->k == K::Extract ? y->c : 0;
          if (lb == yb && llo == ylo + y->w) { p.back() = extract(lb, (unsigned) ylo, l->w + y->w); continue; }
        }
        p.push_back(y);
      } }
    E r = p.back(); for (size_t i = p.size() - 1; i-- > 0;) r = mk(K::Concat, p[i]->w + r->w, p[i], r);
    return r; }
  E concat(E a, E b) { return fromPieces({a, b}); }
  E extract(E e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
      case K::Const: return con(e->c >> lo, w);
      case K::Extract: return extract(e->a, lo + (unsigned) e->c, w);
      case K::Concat: {
        std::vector<E> p, o; pieces(e, p); unsigned pos = e->w;
        for (E x : p) { unsigned xl = pos - x->w; unsigned l = std::max(lo, xl), h = std::min(lo + w, pos); if (l < h) o.push_back(extract(x, l - xl, h - l)); pos = xl; }
        return fromPieces(o); }
      case K::And: case K::Or: case K::Xor: return bin(e->k, extract(e->a, lo, w), extract(e->b, lo, w));
      case K::Add: case K::Sub: case K::Mul: if (lo == 0) return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w)); break;
      case K::SExt: if (lo + w <= e->a->w) return extract(e->a, lo, w); break;
      case K::Read: return mapRead(e, w, [&](uint64_t v) { return v >> lo; });
      case K::Ite: if (e->b->k == K::Const || e->d->k == K::Const || e->b->k == K::Concat || e->d->k == K::Concat) return ite(e->a, extract(e->b, lo, w), extract(e->d, lo, w)); break;
      default: break;
    }
    return mk(K::Extract, w, e, nullptr, nullptr, lo); }
  E zext(E e, unsigned w) { if (e->w == w) return e; if (e->k == K::Read) return mapRead(e, w, [](uint64_t v) { return v; }); return concat(con(0, w - e->w), e); }
  E sext(E e, unsigned w) {
    if (e->w == w) return e;
    if (e->k == K::Const) return con((uint64_t) sx(e->c, e->w), w);
    if (e->k == K::Read) { unsigned ew = e->w; return mapRead(e, w, [&](uint64_t v) { return (uint64_t) sx(v, ew); }); }
    if (e->k == K::Concat && e->a->k == K::Const && !((e->a->c >> (e->a->w - 1)) & 1)) return zext(e, w);
    if (e->w == 1) return ite(e, con(~0ULL, w), con(0, w));
    return mk(K::SExt, w, e); }
  E not_(E e) { return bin(K::Xor, e, con(~0ULL, e->w)); }
  E lnot(E e) { return bin(K::Xor, e, con(1, 1)); }
  E ite(E c, E a, E b) {
    if (c->k == K::Const) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (a->k == K::Const && b->k == K::Const) return a->c ? c : lnot(c);
      if (a->k == K::Const) return a->c ? bin(K::Or, c, b) : bin(K::And, lnot(c), b);
      if (b->k == K::Const) return b->c ? bin(K::Or, lnot(c), a) : bin(K::And, c, a);
    }
    if (c->k == K::Xor && c->b->k == K::Const) return ite(c->a, b, a);
    if (c->k == K::Read && a->k == K::Const && b->k == K::Const) return mapRead(c, a->w, [&](uint64_t v) { return v ? a->c : b->c; });
    return mk(K::Ite, a->w, c, a, b); }
  static bool hiZero(E e, unsigned &z) { // number of known leading zero bits
    z = 0; E x = e; while (true) { E t = x->k == K::Concat ? x->a : x; if (t->k != K::Const) return true; if (t->c) { z += t->w - (64 - (unsigned) __builtin_clzll(t->c)); return true; } z += t->w; if (x->k != K::Concat) return true; x = x->b; } }
  // value bounds used to prune comparisons
  void range(E e, uint64_t &lo, uint64_t &hi, int depth = 0) {
    lo = 0; hi = maskw(e->w);
    if (depth > 12) return;
    switch (e->k) {
      case K::Const: lo = hi = e->c; return;
      case K::Concat: { uint64_t al, ah, bl, bh; range(e->a, al, ah, depth + 1); range(e->b, bl, bh, depth + 1); unsigned s = e->b->w; if (s >= 64) return; lo = (al << s) | bl; hi = (ah << s) | bh; return; }
      case K::Read: { lo = ~0ULL; hi = 0; for (auto &p : e->t->v) { lo = std::min(lo, p.second); hi = std::max(hi, p.second); } return; }
      case K::Ite: { uint64_t al, ah, bl, bh; range(e->b, al, ah, depth + 1); range(e->d, bl, bh, depth + 1); lo = std::min(al, bl); hi = std::max(ah, bh); return; }
      case K::Add: { uint64_t al, ah, bl, bh; range(e->a, al, ah, depth + 1); range(e->b, bl, bh, depth + 1); uint64_t s = ah + bh; if (s >= ah && s <= maskw(e->w)) { lo = al + bl; hi = s; } return; }
      case K::Mul: { uint64_t al, ah, bl, bh; range(e->a, al, ah, depth + 1); range(e->b, bl, bh, depth + 1); unsigned __int128 s = (unsigned __int128) ah * bh; if (s <= maskw(e->w)) { lo = al * bl; hi = (uint64_t) s; } return; }
      case K::And: { uint64_t al, ah, bl, bh; range(e->a, al, ah, depth + 1); range(e->b, bl, bh, depth + 1); hi = std::min(ah, bh); return; }
      case K::URem: { uint64_t bl, bh; range(e->b, bl, bh, depth + 1); if (bl > 0) hi = bh - 1; return; }
      case K::LShr: case K::UDiv: { uint64_t al, ah; range(e->a, al, ah, depth + 1); hi = ah; if (e->b->k == K::Const && e->b->c) { if (e->k == K::UDiv) { lo = al / e->b->c; hi = ah / e->b->c; } else if (e->b->c < 64) { lo = al >> e->b->c; hi = ah >> e->b->c; } } else if (e->k == K::UDiv) { hi = maskw(e->w); } return; }
      default: return;
    } }
  E eq(E a, E b) {
    if (a == b) return tru();
    if (a->k == K::Const && b->k == K::Const) return con(a->c == b->c, 1);
    if (a->k == K::Const) std::swap(a, b);
    if (b->k == K::Const) {
      if (a->w == 1) return b->c ? a : lnot(a);
      if (a->k == K::Read) return mapRead(a, 1, [&](uint64_t v) { return v == b->c; });
      if (a->k == K::Ite) { if (a->b->k == K::Const || a->d->k == K::Const) return ite(a->a, eq(a->b, b), eq(a->d, b)); }
      if (a->k == K::Concat) {
        std::vector<E> p; pieces(a, p); unsigned pos = a->w; E r = tru();
        for (E x : p) { pos -= x->w; E q = eq(x, con(b->c >> pos, x->w)); if (q->k == K::Const && !q->c) return fls(); r = bin(K::And, r, q); }
        return r; }
      if (a->k == K::Xor && a->b->k == K::Const) return eq(a->a, con(a->b->c ^ b->c, a->w));
      if (a->k == K::Add && a->b->k == K::Const) return eq(a->a, con(b->c - a->b->c, a->w));
      if (a->k == K::Add && a->a->k == K::Const) return eq(a->b, con(b->c - a->a->c, a->w));
      uint64_t lo, hi; range(a, lo, hi); if (b->c < lo || b->c > hi) return fls();
    } else if (a->k == K::Concat || b->k == K::Concat) {
      // compare segment-wise
      std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb); std::set<unsigned> cut; unsigned pos = a->w;
      for (E x : pa) { pos -= x->w; cut.insert(pos); } pos = a->w; for (E x : pb) { pos -= x->w; cut.insert(pos); }
      if (cut.size() > 1) {
        std::vector<unsigned> cs(cut.begin(), cut.end()); E r = tru(); unsigned top = a->w;
        for (size_t i = cs.size(); i-- > 0;) { E q = eq(extract(a, cs[i], top - cs[i]), extract(b, cs[i], top - cs[i])); top = cs[i]; if (q->k == K::Const && !q->c) return fls(); r = bin(K::And, r, q); }
        return r; }
    }
    if (a->w == 1) return lnot(bin(K::Xor, a, b));
    if (a->id > b->id && b->k != K::Const) std::swap(a, b);
    return mk(K::Eq, 1, a, b); }
  E ult(E a, E b) {
    if (a == b) return fls();
    if (a->k == K::Const && b->k == K::Const) return con(a->c < b->c, 1);
    if (b->k == K::Const && b->c == 0) return fls();
    if (a->k == K::Const && a->c == maskw(a->w)) return fls();
    if (b->k == K::Const && b->c == 1) return eq(a, con(0, a->w));
    if (a->k == K::Const && a->c == 0) return lnot(eq(b, con(0, b->w)));
    if (a->k == K::Read && b->k == K::Const) return mapRead(a, 1, [&](uint64_t v) { return v < b->c; });
    if (b->k == K::Read && a->k == K::Const) return mapRead(b, 1, [&](uint64_t v) { return a->c < v; });
    uint64_t al, ah, bl, bh; range(a, al, ah); range(b, bl, bh);
    if (ah < bl) return tru(); if (al >= bh) return fls();
    unsigned za, zb; hiZero(a, za); hiZero(b, zb); unsigned z = std::min(za, zb);
    if (z && z < a->w) return ult(extract(a, 0, a->w - z), extract(b, 0, b->w - z));
    if (a->k == K::Ite && b->k == K::Const && a->b->k == K::Const) return ite(a->a, ult(a->b, b), ult(a->d, b));
    if (a->k == K::Ite && b->k == K::Const && a->d->k == K::Const) return ite(a->a, ult(a->b, b), ult(a->d, b));
    if (b->k == K::Ite && a->k == K::Const && (b->b->k == K::Const || b->d->k == K::Const)) return ite(b->a, ult(a, b->b), ult(a, b->d));
    if (a->k == K::Concat && b->k == K::Concat && a->a == b->a) return ult(a->b, b->b);
    if (a->w == 1) return bin(K::And, lnot(a), b);
    return mk(K::Ult, 1, a, b); }
  E slt(E a, E b) {
    if (a == b) return fls();
    if (a->k == K::Const && b->k == K::Const) return con(sx(a->c, a->w) < sx(b->c, b->w), 1);
    unsigned w = a->w; uint64_t half = 1ULL << (w - 1);
    uint64_t al, ah, bl, bh; range(a, al, ah); range(b, bl, bh);
    bool ap = ah < half, an = al >= half, bp = bh < half, bn = bl >= half;
    if (ap && bn) return fls(); if (an && bp) return tru();
    if ((ap && bp) || (an && bn)) return ult(a, b);
    if (a->k == K::Read && b->k == K::Const) return mapRead(a, 1, [&](uint64_t v) { return (uint64_t) (sx(v, w) < sx(b->c, w)); });
    if (b->k == K::Read && a->k == K::Const) return mapRead(b, 1, [&](uint64_t v) { return (uint64_t) (sx(a->c, w) < sx(v, w)); });
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return slt(a->a, b->a);
    if (b->k == K::Const && b->c == 0) return extract(a, w - 1, 1);
    return mk(K::Slt, 1, a, b); }
  E bitwise(K k, E a, E b) {
    std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb);
    if (pa.size() == 1 && pb.size() == 1 && !(a->k == K::Const) && !(b->k == K::Const)) { if (a->id > b->id) std::swap(a, b); return mk(k, a->w, a, b); }
    // cut at all piece boundaries and at runs of constant bits
    std::set<unsigned> cut; cut.insert(0); unsigned pos = a->w;
    auto addc = [&](std::vector<E> &p) { pos = a->w; for (E x : p) { pos -= x->w; cut.insert(pos); if (x->k == K::Const) for (unsigned i = 1; i < x->w; i++) if (((x->c >> i) & 1) != ((x->c >> (i - 1)) & 1)) cut.insert(pos + i); } };
    if (k == K::Xor) { pos = a->w; for (E x : pa) { pos -= x->w; cut.insert(pos); } pos = a->w; for (E x : pb) { pos -= x->w; cut.insert(pos); } if (pa.size() == 1 || pb.size() == 1) { cut.clear(); cut.insert(0); pos = a->w; for (E x : pa.size() > 1 ? pa : pb) { pos -= x->w; cut.insert(pos); } if (pa.size() == 1 && pb.size() == 1) addc(pb), addc(pa); } }
    else { addc(pa); addc(pb); }
    std::vector<unsigned> cs(cut.begin(), cut.end()); std::vector<E> out; unsigned top = a->w; bool useful = cs.size() == 1;
    std::vector<E> xs, ys;
    for (size_t i = cs.size(); i-- > 0;) { xs.push_back(extract(a, cs[i], top - cs[i])); ys.push_back(extract(b, cs[i], top - cs[i])); top = cs[i]; }
    (void) useful;
    for (size_t i = 0; i < xs.size(); i++) {
      E x = xs[i], y = ys[i]; if (x->k == K::Const) std::swap(x, y);
      if (y->k == K::Const) {
        uint64_t m = maskw(y->w);
        if (x->k == K::Const) { out.push_back(con(fold(k, x->c, y->c, x->w), x->w)); continue; }
        if (k == K::And && y->c == 0) { out.push_back(y); continue; }
        if (k == K::And && y->c == m) { out.push_back(x); continue; }
        if (k == K::Or && y->c == 0) { out.push_back(x); continue; }
        if (k == K::Or && y->c == m) { out.push_back(y); continue; }
        if (k == K::Xor && y->c == 0) { out.push_back(x); continue; }
        if (k == K::Xor && x->k == K::Xor && x->b->k == K::Const) { E z = con(x->b->c ^ y->c, x->w); out.push_back(z->c ? mk(K::Xor, x->w, x->a, z) : x->a); continue; }
        out.push_back(mk(k, x->w, x, y)); continue;
      }
      if (x == y) { out.push_back(k == K::Xor ? con(0, x->w) : x); continue; }
      if (x->id > y->id) std::swap(x, y);
      out.push_back(mk(k, x->w, x, y));
    }
    return fromPieces(out); }
  E bin(K k, E a, E b) {
    unsigned w = a->w; assert(a->w == b->w);
    if (a->k == K::Const && b->k == K::Const) { if (k == K::Eq || k == K::Ult || k == K::Slt) return con(fold(k, a->c, b->c, w), 1); return con(fold(k, a->c, b->c, w), w); }
    if (k == K::Eq) return eq(a, b); if (k == K::Ult) return ult(a, b); if (k == K::Slt) return slt(a, b);
    if (a->k == K::Read && b->k == K::Const) return mapRead(a, w, [&](uint64_t v) { return fold(k, v, b->c, w); });
    if (b->k == K::Read && a->k == K::Const) return mapRead(b, w, [&](uint64_t v) { return fold(k, a->c, v, w); });
    if (a->k == K::Read && b->k == K::Read && a->a == b->a && a->t->v.size() == b->t->v.size()) { // same index
      bool ok = true; std::vector<std::pair<uint64_t, uint64_t>> n;
      for (size_t i = 0; i < a->t->v.size() && ok; i++) { if (a->t->v[i].first != b->t->v[i].first) ok = false; else n.push_back({a->t->v[i].first, fold(k, a->t->v[i].second, b->t->v[i].second, w)}); }
      if (ok) return read(a->a, std::move(n), w); }
    switch (k) {
      case K::Add:
        if (a->k == K::Const) std::swap(a, b);
        if (b->k == K::Const && b->c == 0) return a;
        if (b->k == K::Const && a->k == K::Add && a->b->k == K::Const) return bin(K::Add, a->a, con(a->b->c + b->c, w));
        if (a->k == K::Add && a->b->k == K::Const && b->k != K::Const) return bin(K::Add, bin(K::Add, a->a, b), a->b);
        if (b->k == K::Add && b->b->k == K::Const) return bin(K::Add, bin(K::Add, a, b->a), b->b);
        if (a->k == K::Sub && a->b == b) return a->a;
        if (b->k != K::Const && a->id > b->id) std::swap(a, b);
        return mk(k, w, a, b);
      case K::Sub:
        if (a == b) return con(0, w);
        if (b->k == K::Const) return bin(K::Add, a, con(0 - b->c, w));
        if (a->k == K::Add && a->a == b) return a->b; if (a->k == K::Add && a->b == b) return a->a;
        return mk(k, w, a, b);
      case K::Mul:
        if (a->k == K::Const) std::swap(a, b);
        if (b->k == K::Const) { if (b->c == 0) return b; if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) return bin(K::Shl, a, con((uint64_t) __builtin_ctzll(b->c), w)); }
        return mk(k, w, a, b);
      case K::UDiv: if (b->k == K::Const && b->c && (b->c & (b->c - 1)) == 0) return bin(K::LShr, a, con((uint64_t) __builtin_ctzll(b->c), w)); return mk(k, w, a, b);
      case K::URem: if (b->k == K::Const && b->c && (b->c & (b->c - 1)) == 0) return bin(K::And, a, con(b->c - 1, w)); return mk(k, w, a, b);
      case K::SDiv: case K::SRem: { uint64_t al, ah, bl, bh; range(a, al, ah); range(b, bl, bh); uint64_t half = 1ULL << (w - 1); if (ah < half && bh < half) return bin(k == K::SDiv ? K::UDiv : K::URem, a, b); return mk(k, w, a, b); }
      case K::And: case K::Or: case K::Xor:
        if (w == 1) {
          if (a->k == K::Const) std::swap(a, b);
          if (b->k == K::Const) { if (k == K::And) return b->c ? a : b; if (k == K::Or) return b->c ? b : a; if (!b->c) return a; if (a->k == K::Xor && a->b->k == K::Const) return a->a; return mk(K::Xor, 1, a, b); }
          if (a == b) return k == K::Xor ? fls() : a;
          if (k != K::Xor && ((a->k == K::Xor && a->b->k == K::Const && a->a == b) || (b->k == K::Xor && b->b->k == K::Const && b->a == a))) return con(k == K::Or, 1);
          if (a->id > b->id) std::swap(a, b);
          return mk(k, 1, a, b); }
        return bitwise(k, a, b);
      case K::Shl: if (b->k == K::Const) { if (b->c == 0) return a; if (b->c >= w) return con(0, w); return concat(extract(a, 0, w - (unsigned) b->c), con(0, (unsigned) b->c)); } return mk(k, w, a, b);
      case K::LShr: if (b->k == K::Const) { if (b->c == 0) return a; if (b->c >= w) return con(0, w); return concat(con(0, (unsigned) b->c), extract(a, (unsigned) b->c, w - (unsigned) b->c)); } return mk(k, w, a, b);
      case K::AShr: if (b->k == K::Const) { if (b->c == 0) return a; uint64_t lo, hi; range(a, lo, hi); if (hi < (1ULL << (w - 1))) return bin(K::LShr, a, b); } return mk(k, w, a, b);
      default: abort();
    } }

  // --- evaluation under a model ---
  uint64_t eval(E e, const Model &m) { gen++; return ev(e, m); }
  uint64_t ev(E e, const Model &m) {
    if (e->k == K::Const) return e->c;
    if (e->k == K::Sym) return e->c < m.size() ? m[e->c] : 0;
    if (e->gen == gen) return e->val;
    uint64_t r;
    switch (e->k) {
      case K::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
      case K::Extract: r = (ev(e->a, m) >> e->c) & maskw(e->w); break;
      case K::SExt: r = (uint64_t) sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
      case K::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
      case K::Read: r = tlook(e->t, ev(e->a, m)); break;
      default: { uint64_t x = ev(e->a, m), y = ev(e->b, m); r = fold(e->k, x, y, e->a->w); }
    }
    e->gen = gen; e->val = r; return r; }

  // --- rewriting: f(e) returns replacement or null ---
  template <class F> E rebuild(E e, F &f) {
    if (e->k == K::Const) return e;
    if (e->rgen == rgen) return e->rw;
    E r = f(e);
    if (!r) {
      switch (e->k) {
        case K::Sym: r = e; break;
        case K::Concat: r = concat(rebuild(e->a, f), rebuild(e->b, f)); break;
        case K::Extract: r = extract(rebuild(e->a, f), (unsigned) e->c, e->w); break;
        case K::SExt: r = sext(rebuild(e->a, f), e->w); break;
        case K::Ite: { E c = rebuild(e->a, f); if (c->k == K::Const) r = rebuild(c->c ? e->b : e->d, f); else r = ite(c, rebuild(e->b, f), rebuild(e->d, f)); break; }
        case K::Read: { E i = rebuild(e->a, f); r = i == e->a ? e : read(i, e->t->v, e->w); break; }
        default: r = bin(e->k, rebuild(e->a, f), rebuild(e->b, f));
      } }
    e->rgen = rgen; e->rw = r; return r; }
  template <class F> E rewrite(E e, F f) { rgen++; return rebuild(e, f); }

  // --- possible values of an expression (superset), or fail ---
  bool valueSet(E e, std::set<uint64_t> &out, size_t limit = 4096, int depth = 0) {
    if (depth > 16) return false;
    if (e->k == K::Const) { out.insert(e->c); return true; }
    if (e->k == K::Read) { for (auto &p : e->t->v) out.insert(p.second); return out.size() <= limit; }
    unsigned n = e->sup.count();
    if (n == 1) { Model m(MAXSYM, 0); unsigned s = 0; e->sup.each([&](unsigned i) { s = i; }); for (unsigned v = 0; v < 256; v++) { m[s] = (uint8_t) v; out.insert(eval(e, m)); } return true; }
    auto two = [&](E a, E b, auto g) { std::set<uint64_t> x, y; if (!valueSet(a, x, limit, depth + 1) || !valueSet(b, y, limit, depth + 1)) return false; if (x.size() * y.size() > 200000) return false; for (auto p : x) for (auto q : y) { out.insert(g(p, q)); if (out.size() > limit) return false; } return true; };
    switch (e->k) {
      case K::Concat: return two(e->a, e->b, [&](uint64_t p, uint64_t q) { return (p << e->b->w) | q; });
      case K::Extract: { std::set<uint64_t> x; if (!valueSet(e->a, x, limit, depth + 1)) return false; for (auto p : x) out.insert((p >> e->c) & maskw(e->w)); return true; }
      case K::Ite: return valueSet(e->b, out, limit, depth + 1) && valueSet(e->d, out, limit, depth + 1) && out.size() <= limit;
      case K::SExt: { std::set<uint64_t> x; if (!valueSet(e->a, x, limit, depth + 1)) return false; for (auto p : x) out.insert((uint64_t) sx(p, e->a->w) & maskw(e->w)); return true; }
      case K::Eq: case K::Ult: case K::Slt: out.insert(0); out.insert(1); return true;
      case K::Sym: for (unsigned v = 0; v < 256; v++) out.insert(v); return true;
      default: return two(e->a, e->b, [&](uint64_t p, uint64_t q) { return fold(e->k, p, q, e->a->w); });
    } }
};
