// Z3 back end: bit-vector satisfiability of path constraints.
#pragma once
#include "expr.h"
#include <chrono>
#include <z3++.h>

static inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum class Res { Sat, Unsat, Unknown };

struct Solver {
  Exprs &X; z3::context ctx; z3::solver s; std::unordered_map<uint32_t, Z3_ast> memo; std::vector<z3::expr> keep;
  uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0;
  struct Hash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
  std::unordered_map<std::vector<uint32_t>, std::pair<Res, Model>, Hash> cache;
  std::vector<Model> recent; size_t recentPos = 0;
  unsigned timeoutMs = 20000;
  std::string dumpDir; unsigned dumpEvery = 0, dumped = 0, dumpMax = 40; bool selfcheck = false;

  Solver(Exprs &x) : X(x), s(ctx, "QF_BV") { setTimeout(timeoutMs); }
  void setTimeout(unsigned ms) { timeoutMs = ms; z3::params p(ctx); p.set("timeout", ms); s.set(p); }

  Z3_ast keepAst(Z3_ast a) { z3::expr e(ctx, a); keep.push_back(e); return a; }
  Z3_ast b2v(Z3_ast b) { return keepAst(Z3_mk_ite(ctx, b, bv(1, 1), bv(0, 1))); }
  Z3_ast bv(uint64_t v, unsigned w) { return keepAst(Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w))); }
  Z3_ast symAst(unsigned i) { std::string n = "b" + std::to_string(i); return keepAst(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, 8))); }
  // width-1 expressions are lowered to Bool, others to bit-vectors
  std::unordered_map<uint32_t, Z3_ast> memoB;
  Z3_ast boolOf(E e) {
    auto it = memoB.find(e->id); if (it != memoB.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
      case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case K::Eq: if (e->a->w == 1) r = Z3_mk_iff(ctx, boolOf(e->a), boolOf(e->b)); else r = Z3_mk_eq(ctx, vec(e->a), vec(e->b)); break;
      case K::Ult: r = Z3_mk_bvult(ctx, vec(e->a), vec(e->b)); break;
      case K::Slt: r = Z3_mk_bvslt(ctx, vec(e->a), vec(e->b)); break;
      case K::And: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case K::Or: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case K::Xor: if (e->b->k == K::Const) r = e->b->c ? Z3_mk_not(ctx, boolOf(e->a)) : boolOf(e->a); else r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
      case K::Ite: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->d)); break;
      default: r = Z3_mk_eq(ctx, vecRaw(e), bv(1, 1)); break;
    }
    keepAst(r); memoB[e->id] = r; return r; }
  Z3_ast vec(E e) { if (e->w == 1 && e->k != K::Extract && e->k != K::Read) return b2v(boolOf(e)); return vecRaw(e); }
  Z3_ast readTree(Z3_ast idx, unsigned iw, const std::vector<std::pair<uint64_t, uint64_t>> &v, size_t lo, size_t hi, unsigned w) {
    bool same = true; for (size_t i = lo + 1; i < hi; i++) if (v[i].second != v[lo].second) { same = false; break; }
    if (same) return bv(v[lo].second, w);
    uint64_t diff = v[lo].first ^ v[hi - 1].first; unsigned bit = 63 - (unsigned) __builtin_clzll(diff);
    size_t mid = lo; while (!((v[mid].first >> bit) & 1)) mid++;
    Z3_ast l = readTree(idx, iw, v, lo, mid, w), h = readTree(idx, iw, v, mid, hi, w); if (l == h) return l;
    Z3_ast bitv = keepAst(Z3_mk_extract(ctx, bit, bit, idx)); Z3_ast c = keepAst(Z3_mk_eq(ctx, bitv, bv(1, 1)));
    return keepAst(Z3_mk_ite(ctx, c, h, l)); }
  Z3_ast vecRaw(E e) {
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
      case K::Const: r = bv(e->c, e->w); break;
      case K::Sym: r = symAst((unsigned) e->c); break;
      case K::Concat: r = Z3_mk_concat(ctx, vec(e->a), vec(e->b)); break;
      case K::Extract: r = Z3_mk_extract(ctx, (unsigned) e->c + e->w - 1, (unsigned) e->c, vec(e->a)); break;
      case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, vec(e->a)); break;
      case K::Ite: r = Z3_mk_ite(ctx, boolOf(e->a), vec(e->b), vec(e->d)); break;
      case K::Read: r = readTree(vec(e->a), e->a->w, e->t->v, 0, e->t->v.size(), e->w); break;
      case K::Add: r = Z3_mk_bvadd(ctx, vec(e->a), vec(e->b)); break;
      case K::Sub: r = Z3_mk_bvsub(ctx, vec(e->a), vec(e->b)); break;
      case K::Mul: r = Z3_mk_bvmul(ctx, vec(e->a), vec(e->b)); break;
      case K::UDiv: r = Z3_mk_bvudiv(ctx, vec(e->a), vec(e->b)); break;
      case K::SDiv: r = Z3_mk_bvsdiv(ctx, vec(e->a), vec(e->b)); break;
      case K::URem: r = Z3_mk_bvurem(ctx, vec(e->a), vec(e->b)); break;
      case K::SRem: r = Z3_mk_bvsrem(ctx, vec(e->a), vec(e->b)); break;
      case K::And: r = Z3_mk_bvand(ctx, vec(e->a), vec(e->b)); break;
      case K::Or: r = Z3_mk_bvor(ctx, vec(e->a), vec(e->b)); break;
      case K::Xor: r = Z3_mk_bvxor(ctx, vec(e->a), vec(e->b)); break;
      case K::Shl: r = Z3_mk_bvshl(ctx, vec(e->a), vec(e->b)); break;
      case K::LShr: r = Z3_mk_bvlshr(ctx, vec(e->a), vec(e->b)); break;
      case K::AShr: r = Z3_mk_bvashr(ctx, vec(e->a), vec(e->b)); break;
      default: r = b2v(boolOf(e)); break;
    }
    keepAst(r); memo[e->id] = r; return r; }

  // is pc && extra satisfiable?  On Sat, `model` (a model of pc) is updated to satisfy extra as well.
  Res check(const std::vector<E> &pc, E extra, Model &model) {
    queries++;
    if (extra->k == K::Const) { if (!extra->c) { unsat++; return Res::Unsat; } sat++; return Res::Sat; }
    // independent slice
    Support sup = extra->sup; std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && pc[i]->sup.intersects(sup)) { in[i] = 1; sup.merge(pc[i]->sup); ch = true; } }
    std::vector<E> sl; for (size_t i = 0; i < pc.size(); i++) if (in[i]) sl.push_back(pc[i]);
    sl.push_back(extra);
    std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { cacheHits++; if (it->second.first == Res::Sat) { apply(model, it->second.second, sup); sat++; } else unsat++; return it->second.first; }
    for (size_t i = 0; i < recent.size(); i++) {
      const Model &m = recent[(recentPos + recent.size() - 1 - i) % recent.size()]; bool ok = true;
      for (size_t j = sl.size(); j-- > 0 && ok;) if (!X.eval(sl[j], m)) ok = false;
      if (ok) { modelHits++; sat++; Model c = m; cache[key] = {Res::Sat, c}; apply(model, c, sup); return Res::Sat; }
    }
    double t0 = now(); z3calls++;
    Res res; Model m(MAXSYM, 0);
    s.push();
    for (E e : sl) { Z3_solver_assert(ctx, s, boolOf(e)); }
    bool dumpedThis = false; if (dumpEvery && z3calls % dumpEvery == 0 && dumped < dumpMax) { dump(); dumpedThis = true; }
    z3::check_result r = s.check();
    if (r == z3::sat) {
      res = Res::Sat; z3::model zm = s.get_model();
      sup.each([&](unsigned i) { Z3_ast v = nullptr; Z3_model_eval(ctx, zm, symAst(i), true, &v); uint64_t u = 0; if (v) { z3::expr ve(ctx, v); Z3_get_numeral_uint64(ctx, ve, &u); } m[i] = (uint8_t) u; });
      for (E e : sl) if (!X.eval(e, m)) { fprintf(stderr, "ENGINE: model does not satisfy constraint (encoding bug)\n"); res = Res::Unknown; break; }
    } else if (r == z3::unsat) res = Res::Unsat; else res = Res::Unknown;
    s.pop();
    if (dumpedThis) { FILE *o = fopen((lastDump + ".res").c_str(), "w"); if (o) { fputs(res == Res::Sat ? "sat\n" : res == Res::Unsat ? "unsat\n" : "unknown\n", o); fclose(o); } }
    double dt = now() - t0; time += dt; maxTime = std::max(maxTime, dt);
    if (res == Res::Sat) { sat++; if (recent.size() < 24) recent.push_back(m); else { recent[recentPos] = m; recentPos = (recentPos + 1) % 24; } apply(model, m, sup); }
    else if (res == Res::Unsat) unsat++; else { unknown++; return res; }
    cache[key] = {res, m};
    return res; }
  void apply(Model &model, const Model &m, const Support &sup) { sup.each([&](unsigned i) { if (i >= model.size()) model.resize(MAXSYM, 0); model[i] = m[i]; }); }
  void dump() {
    std::string f = dumpDir + "/q" + std::to_string(dumped++) + ".smt2"; FILE *o = fopen(f.c_str(), "w"); if (!o) return;
    std::string t = s.to_smt2(); fputs("(set-logic QF_BV)\n", o); fputs(t.c_str(), o); fclose(o); lastDump = f; }
  std::string lastDump;
};
