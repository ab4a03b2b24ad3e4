// Symbolic executor for LLVM IR.  Executes a harness (compiled together with the code under test) on symbolic
// input bytes; every branch, assertion and memory-safety condition is decided by Z3.
#include <unistd.h>
#include "expr.h"
#include "solver.h"

#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <iostream>
#include <sstream>

using namespace llvm;
typedef std::string Str;

static Exprs X;

struct Val;
typedef std::shared_ptr<std::vector<Val>> Agg;
struct Val { uint64_t c = 0; E e = nullptr; Agg agg; bool conc() const { return !e; } };
static Val mkv(uint64_t c) { Val v; v.c = c; return v; }
static Val mkv(E e) { Val v; if (e->k == K::Const) v.c = e->c; else v.e = e; return v; }

// ---------------------------------------------------------------- memory
enum class OK : uint8_t { Global, Stack, Heap, Func };
static const unsigned SLOT = 24; static const uint64_t BASE = 0x1000; static const uint64_t MAXOBJ = (1ULL << SLOT) - 0x2000;
struct Obj {
  int rc = 0; OK kind; uint8_t allocKind = 0; /*1 malloc 2 new 3 new[]*/ bool freed = false, ro = false; uint32_t size = 0; const Value *origin = nullptr;
  std::vector<uint8_t> c; std::vector<E> s; // s empty => all concrete
};
struct ObjP { Obj *p = nullptr; ObjP() {} ObjP(Obj *o) : p(o) { if (p) p->rc++; } ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; } ~ObjP() { if (p && --p->rc == 0) delete p; } };
static const unsigned CH = 64;
struct Chunk { int rc = 0; ObjP o[CH]; };
struct ChunkP { Chunk *p = nullptr; ChunkP() {} ChunkP(Chunk *o) : p(o) { if (p) p->rc++; } ChunkP(const ChunkP &o) : p(o.p) { if (p) p->rc++; } ChunkP(ChunkP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ChunkP &operator=(ChunkP o) { std::swap(p, o.p); return *this; } ~ChunkP() { if (p && --p->rc == 0) delete p; } };
static E U8; // the uninitialised byte

struct Mem {
  std::vector<ChunkP> ch; uint64_t next = 1;
  Obj *get(uint64_t id) const { if (id == 0 || id >= next) return nullptr; Chunk *c = ch[id / CH].p; return c ? c->o[id % CH].p : nullptr; }
  Obj *wr(uint64_t id) {
    ChunkP &c = ch[id / CH]; if (c.p->rc > 1) { Chunk *n = new Chunk(); for (unsigned i = 0; i < CH; i++) n->o[i] = c.p->o[i]; c = ChunkP(n); }
    ObjP &o = c.p->o[id % CH]; if (o.p->rc > 1) { Obj *n = new Obj(*o.p); n->rc = 0; o = ObjP(n); } return o.p; }
  void put(uint64_t id, Obj *ob) {
    ChunkP &c = ch[id / CH]; if (c.p->rc > 1) { Chunk *n = new Chunk(); for (unsigned i = 0; i < CH; i++) n->o[i] = c.p->o[i]; c = ChunkP(n); }
    c.p->o[id % CH] = ObjP(ob); }
  uint64_t alloc(uint64_t size, OK kind, bool uninit) {
    uint64_t id = next++; while (ch.size() <= id / CH) ch.push_back(ChunkP(new Chunk()));
    Obj *o = new Obj(); o->kind = kind; o->size = (uint32_t) size; o->c.assign(size, 0); if (uninit) o->s.assign(size, U8); put(id, o); return id; }
  void drop(uint64_t id) { put(id, nullptr); }
};
static uint64_t addrOf(uint64_t id) { return (id << SLOT) + BASE; }

// ---------------------------------------------------------------- compiled functions
enum class Op : uint8_t { Alloca, Load, Store, Gep, Br, CondBr, Switch, Ret, Call, Phi, Select, ICmp, Bin, Trunc, ZExt, SExt, Copy, ExtractValue, InsertValue, Unreachable, AtomicRMW, CmpXchg, Fence, Resume, LandingPad, Unsupported };
struct Opnd { int reg = -1; Val v; };
struct KFunc;
enum class Ext : uint8_t { None, Body, Malloc, Calloc, Realloc, Free, New, NewArr, Delete, DeleteArr, Memcpy, Memset, Memcmp, Bcmp, GuardAcq, GuardRel, Nop, NopRet0, AssertFail, Abort, Throw, AllocExc, BeginCatch, EndCatch, PureVirtual,
  SymInt, SymFill, SymAssume, SymCheck, SymReach, SymTrace, SymConc, SymParam, SymLive, SymPoison, SymIsSym, SymNote, SymEqMem, Xxh, Intrin, Unsup, StrlenC, UbAbort };
struct KInst {
  Op op; uint8_t w = 0; uint8_t sub = 0; int dst = -1; const Instruction *I = nullptr; std::vector<Opnd> ops; uint64_t imm = 0; std::vector<std::pair<int, uint64_t>> gep; // (operand idx, scale)
  int t0 = -1, t1 = -1; // branch targets (block idx)
  std::vector<std::pair<uint64_t, int>> cases; KFunc *callee = nullptr; Ext ext = Ext::None; unsigned intrin = 0; std::vector<unsigned> idx; Type *ty = nullptr; bool nsw = false, nuw = false, ub = false; std::vector<std::pair<unsigned, uint64_t>> byval;
};
struct KBlock { std::vector<KInst> insts; std::vector<std::pair<int, std::vector<std::pair<int, Opnd>>>> phis; bool covered = false; };
struct KFunc { Function *F; Str name, pretty; bool isTarget = false; bool compiled = false; Ext ext = Ext::Body; unsigned intrin = 0; unsigned nregs = 0; std::vector<KBlock> blocks; uint64_t calls = 0; uint64_t addr = 0; };

struct Frame { KFunc *f; int bb = 0, ip = 0; std::vector<Val> regs; std::vector<uint64_t> allocas; };
struct TraceItem { Val v; unsigned w; };
// possible values of one input byte
struct Dom { std::vector<uint8_t> v; uint32_t id; };
struct State {
  std::vector<const Dom *> dom; Support domSup;
  std::vector<Frame> st; Mem mem; std::vector<E> pc; Model model; unsigned nsym = 1; std::vector<std::pair<Str, unsigned>> syms;
  std::shared_ptr<std::unordered_map<E, uint64_t>> known; Support knownSup; std::vector<TraceItem> trace; std::vector<Str> notes; int64_t live = 0; uint64_t instrs = 0; uint64_t id = 0; unsigned depth = 0; bool inconclusive = false;
  std::vector<Str> reached; uint64_t exc = 0, exty = 0, exdtor = 0; // the exception in flight
};

struct Violation { Str kind, msg, stack; std::vector<uint8_t> input; std::vector<std::pair<Str, unsigned>> syms; std::vector<Str> notes; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr; Solver solver{X};
  std::map<const Function *, KFunc *> funcs; std::map<uint64_t, KFunc *> funcAt; std::map<const GlobalValue *, uint64_t> gaddr; std::map<uint64_t, uint64_t> typeIds; bool unwinding = false; std::map<Str, uint64_t> params;
  Mem initMem; std::vector<State *> work; std::vector<Violation> viols; std::map<Str, uint64_t> reach; std::map<Str, uint64_t> reachDecl; std::map<Str, uint64_t> checks; std::map<Str, uint64_t> knownCount;
  std::map<Str, uint64_t> incomplete; // reason -> count
  uint64_t paths = 0, pruned = 0, forks = 0, instrs = 0, branches = 0, symBranches = 0, assertsDischarged = 0, memChecks = 0, nextState = 0, maxSyms = 0, maxPathInstrs = 0;
  uint64_t maxInstr = 6000000, maxPaths = 2000000; double maxTime = 600, violTime = 0; unsigned maxViol = 3; double t0 = 0; Str vec; unsigned nsamples = 8; bool checkUninit = true; bool bfs = false;
  struct Sample { std::vector<uint8_t> in; std::vector<uint64_t> trace; }; std::vector<Sample> samples; uint64_t sampleSeen = 0; uint64_t rng = 88172645463325252ULL;
  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  struct PathEnd {}; // thrown to end the current path
  bool stop = false;

  // ---------- errors
  Str where(State &S) {
    std::ostringstream o; int n = 0;
    for (size_t i = S.st.size(); i-- > 0 && n < 14; n++) {
      Frame &f = S.st[i]; Str loc; if ((size_t) f.ip < f.f->blocks[f.bb].insts.size()) { const Instruction *I = f.f->blocks[f.bb].insts[f.ip].I; if (I && I->getDebugLoc()) { const DebugLoc &d = I->getDebugLoc(); loc = d->getFilename().str() + ":" + std::to_string(d.getLine()); } }
      o << "    #" << n << " " << f.f->pretty.substr(0, 160) << (loc.empty() ? "" : "  at ") << loc << "\n"; }
    return o.str(); }
  [[noreturn]] void violate(State &S, const Str &kind, const Str &msg, const Model *m = nullptr) {
    const Model &mm = m ? *m : S.model; Violation v; v.kind = kind; v.msg = msg; v.stack = where(S); v.syms = S.syms; v.notes = S.notes;
    for (unsigned i = 1; i < S.nsym; i++) v.input.push_back(i < mm.size() ? mm[i] : 0);
    bool dup = false; for (auto &o : viols) if (o.kind == kind && o.msg == msg && o.stack == v.stack) dup = true;
    if (!dup) { if (viols.empty() && violTime > 0) maxTime = std::min(maxTime, now() - t0 + violTime); viols.push_back(v); if (viols.size() >= maxViol) stop = true; }
    else knownCount[kind + ":" + msg]++;
    throw PathEnd(); }
  [[noreturn]] void giveUp(State &S, const Str &why) { (void) S; incomplete[why]++; throw PathEnd(); }

  // ---------- expressions / constraints
  E ex(const Val &v, unsigned w) { return v.e ? v.e : X.con(v.c, w); }
  // ---------- byte domains: the values one input byte can still take on a path
  std::map<std::vector<uint8_t>, Dom *> doms; std::unordered_map<uint64_t, E> domCache; Dom *fullDom = nullptr;
  const Dom *mkDom(const std::vector<uint8_t> &v) { auto &d = doms[v]; if (!d) d = new Dom{v, (uint32_t) doms.size()}; return d; }
  const Dom *domOf(State &S, unsigned i) { if (i < S.dom.size() && S.dom[i]) return S.dom[i]; if (!fullDom) { std::vector<uint8_t> v; for (unsigned k = 0; k < 256; k++) v.push_back((uint8_t) k); fullDom = (Dom *) mkDom(v); } return fullDom; }
  // e over one byte, restricted to the byte's domain: a constant, a table, or e itself
  E restrict1(State &S, E e) {
    const Dom *d = domOf(S, (unsigned) e->one); bool full = d->v.size() == 256; if (full && !e->rd) return nullptr;
    uint64_t key = (uint64_t) e->id << 32 | d->id; auto it = domCache.find(key); if (it != domCache.end()) return it->second;
    Model m(MAXSYM, 0); std::vector<std::pair<uint64_t, uint64_t>> t; bool same = true; for (uint8_t v : d->v) { m[(unsigned) e->one] = v; t.push_back({v, X.eval(e, m)}); if (t.back().second != t[0].second) same = false; }
    E r = same ? X.con(t[0].second, e->w) : e->rd ? X.read(X.sym((unsigned) e->one), std::move(t), e->w) : nullptr; return domCache[key] = r; }
  E restrict(State &S, E e) { if (!e->rd && !e->sup.intersects(S.domSup)) return e; return X.rewrite(e, [&](E x) -> E { return x->one > 0 && x->k != K::Sym ? restrict1(S, x) : nullptr; }); }
  E simp(State &S, E e) {
    if (e->k == K::Const) return e;
    if (S.known && e->sup.intersects(S.knownSup)) { auto &km = *S.known; e = X.rewrite(e, [&](E x) -> E { auto it = km.find(x); return it == km.end() ? nullptr : X.con(it->second, x->w); }); }
    return restrict(S, e); }
  // a constraint on one byte narrows its domain; the path condition keeps one membership constraint per byte
  void narrow(State &S, E c) {
    unsigned i = (unsigned) c->one; const Dom *d = domOf(S, i); Model m(MAXSYM, 0); std::vector<uint8_t> v; for (uint8_t x : d->v) { m[i] = x; if (X.eval(c, m)) v.push_back(x); }
    if (v.size() == d->v.size()) return; if (S.dom.size() <= i) S.dom.resize(i + 1, nullptr); S.dom[i] = mkDom(v); S.domSup.set(i);
    std::vector<E> pc, more; for (E p : S.pc) { if (p->one == (int) i) continue; bool single = p->one > 0; if (p->rd && p->sup.has(i)) p = restrict(S, p); if (p->k == K::Const) { if (p->c) continue; } else if (!single && p->one > 0) { more.push_back(p); continue; } pc.push_back(p); }
    std::vector<std::pair<uint64_t, uint64_t>> t; for (unsigned k = 0; k < 256; k++) t.push_back({k, std::binary_search(v.begin(), v.end(), (uint8_t) k)});
    E y = X.sym(i); pc.push_back(v.size() == 1 ? X.eq(y, X.con(v[0], 8)) : X.read(y, std::move(t), 1)); S.pc = pc; if (v.size() == 1) know(S, y, v[0]);
    for (E p : more) narrow(S, p); }
  void know(State &S, E e, uint64_t v) { if (e->k == K::Const) return; if (!S.known) S.known = std::make_shared<std::unordered_map<E, uint64_t>>(); else if (S.known.use_count() > 1) S.known = std::make_shared<std::unordered_map<E, uint64_t>>(*S.known); (*S.known)[e] = v; S.knownSup.merge(e->sup); }
  void addc(State &S, E c) {
    if (c->k == K::Const) return;
    if (c->k == K::And && c->w == 1) { addc(S, c->a); addc(S, c->b); return; }
    if (c->k == K::Xor && c->b->k == K::Const && c->a->k == K::Or) { addc(S, X.lnot(c->a->a)); addc(S, X.lnot(c->a->b)); return; }
    for (E p : S.pc) if (p == c) return;
    know(S, c, 1);
    if (c->one > 0) narrow(S, c); else S.pc.push_back(c);
    if (c->k == K::Xor && c->b->k == K::Const) know(S, c->a, 0);
    if (c->k == K::Eq && c->b->k == K::Const) know(S, c->a, c->b->c);
    // a byte-table constraint that leaves a single value
    if (c->k == K::Read && c->w == 1) { uint64_t only = 0; int n = 0; for (auto &p : c->t->v) if (p.second) { only = p.first; n++; } if (n == 1) know(S, c->a, only); if (n == 1) { E i = c->a; while (i->k == K::Concat && i->a->k == K::Const) i = i->b; if (i != c->a) know(S, i, only & maskw(i->w)); } } }
  Res sat(State &S, E c, Model &m) { return solver.check(S.pc, c, m); }
  bool usesUninit(E e) { return e->sup.has(0); }
  void uninitCheck(State &S, E e, const char *what) {
    if (!checkUninit || !usesUninit(e)) return;
    E a = X.rewrite(e, [&](E x) -> E { return x == U8 ? X.con(0, 8) : nullptr; });
    for (uint64_t k : {0xffULL, 0xa5ULL, 1ULL}) {
      E b = X.rewrite(e, [&](E x) -> E { return x == U8 ? X.con(k, 8) : nullptr; });
      E ne = X.lnot(X.eq(a, b)); if (ne->k == K::Const && !ne->c) continue;
      Model m = S.model; if (sat(S, ne, m) == Res::Sat) violate(S, "uninit", Str(what) + " depends on uninitialised memory", &m); } }
  State *fork(State &S) { State *n = new State(S); n->id = nextState++; n->depth++; forks++; return n; }
  // decide a condition; forks if both sides are possible.  Returns the side taken by S; other side is queued with re-execution at same ip.
  bool decide(State &S, E c) {
    c = simp(S, c); if (c->k == K::Const) return c->c;
    symBranches++; uninitCheck(S, c, "branch");
    bool mv = X.eval(c, S.model); E no = mv ? X.lnot(c) : c; Model m = S.model; Res r = sat(S, no, m);
    if (r == Res::Unknown) { incomplete["solver-unknown"]++; S.inconclusive = true; addc(S, mv ? c : X.lnot(c)); return mv; }
    if (r == Res::Unsat) { know(S, c, mv); return mv; }
    State *n = fork(S); n->model = m; addc(*n, no); work.push_back(n);
    addc(S, mv ? c : X.lnot(c)); return mv; }
  uint64_t concretize(State &S, E e) {
    e = simp(S, e); if (e->k == K::Const) return e->c;
    uninitCheck(S, e, "address/size/control value");
    uint64_t v = X.eval(e, S.model); E eq = X.eq(e, X.con(v, e->w)); Model m = S.model; Res r = sat(S, X.lnot(eq), m);
    if (r == Res::Unknown) { incomplete["solver-unknown"]++; S.inconclusive = true; }
    if (r == Res::Sat) { State *n = fork(S); n->model = m; addc(*n, X.lnot(eq)); work.push_back(n); }
    addc(S, eq); know(S, e, v); return v; }
  uint64_t cv(State &S, const Val &v) { return v.e ? concretize(S, v.e) : v.c; }
  // must hold on this path for all inputs; otherwise violation
  void require(State &S, E c, const Str &kind, const Str &msg) {
    c = simp(S, c); memChecks++; if (c->k == K::Const) { if (!c->c) violate(S, kind, msg); return; }
    Model m = S.model; Res r = sat(S, X.lnot(c), m);
    if (r == Res::Sat) {
      // record the violation, then continue with the inputs for which the condition holds
      Model good = S.model; Res g = sat(S, c, good);
      if (g != Res::Sat) violate(S, kind, msg, &m);
      try { violate(S, kind, msg, &m); } catch (PathEnd &) { if (stop) throw; }
      S.model = good; addc(S, c);
    } else if (r == Res::Unknown) { incomplete["solver-unknown"]++; S.inconclusive = true; } }

  // ---------- memory access
  Obj *resolve(State &S, uint64_t addr, uint64_t n, uint64_t &id, uint64_t &off, const char *what) {
    id = addr >> SLOT; off = (addr & ((1ULL << SLOT) - 1)) - BASE;
    if (addr < (1ULL << SLOT)) violate(S, "null-deref", Str(what) + " of null or invalid pointer");
    Obj *o = S.mem.get(id); if (!o) { if (id < S.mem.next) violate(S, "use-after-scope", Str(what) + " of dead stack object"); violate(S, "wild-pointer", Str(what) + " through wild pointer"); }
    if (o->freed) violate(S, "use-after-free", Str(what) + " of freed memory");
    if (off > o->size || n > o->size - off) violate(S, "out-of-bounds", Str(what) + " out of bounds of object of size " + std::to_string(o->size));
    if (o->kind == OK::Func) violate(S, "wild-pointer", Str(what) + " of function");
    return o; }
  Val loadBytes(State &S, Obj *o, uint64_t off, unsigned n) {
    if (o->s.empty()) { uint64_t v = 0; memcpy(&v, &o->c[off], n); return mkv(v); }
    bool conc = true; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) conc = false;
    if (conc) { uint64_t v = 0; memcpy(&v, &o->c[off], n); return mkv(v); }
    std::vector<E> p; for (unsigned i = n; i-- > 0;) { E b = o->s[off + i] ? o->s[off + i] : X.con(o->c[off + i], 8); p.push_back(b); }
    E e = X.fromPieces(p); return mkv(simp(S, e)); }
  Val load(State &S, const Val &a, unsigned n) {
    uint64_t addr;
    if (a.e) {
      E ae = simp(S, a.e);
      if (ae->k == K::Const) addr = ae->c; else {
        // symbolic address into a constant object => table
        uint64_t mv = X.eval(ae, S.model); uint64_t id = mv >> SLOT; Obj *o = S.mem.get(id);
        if (o && !o->freed && o->kind != OK::Func && o->s.empty() && o->size >= n) {
          uninitCheck(S, ae, "address"); std::set<uint64_t> vs; bool have = X.valueSet(ae, vs, 8192); uint64_t b = addrOf(id);
          bool inb = have; if (have) for (uint64_t x : vs) if (x < b || x - b + n > o->size) { inb = false; break; }
          if (!inb) {
            E off = X.bin(K::Sub, ae, X.con(b, 64)); E ok = X.lnot(X.ult(X.con(o->size - n, 64), off));
            Model m = S.model; Res r = sat(S, X.lnot(ok), m);
            if (r == Res::Unknown) giveUp(S, "solver-unknown");
            if (r == Res::Sat) { State *nn = fork(S); nn->model = m; addc(*nn, X.lnot(ok)); work.push_back(nn); addc(S, ok); } }
          std::vector<std::pair<uint64_t, uint64_t>> tv;
          if (have) { for (uint64_t x : vs) if (x >= b && x - b + n <= o->size) { uint64_t v = 0; memcpy(&v, &o->c[x - b], n); tv.push_back({x, v}); } }
          else if (o->size <= 65536) for (uint64_t x = 0; x + n <= o->size; x++) { uint64_t v = 0; memcpy(&v, &o->c[x], n); tv.push_back({b + x, v}); }
          if (!tv.empty()) return mkv(X.read(ae, std::move(tv), n * 8));
        }
        addr = concretize(S, ae);
      } } else addr = a.c;
    uint64_t id, off; Obj *o = resolve(S, addr, n, id, off, "load"); return loadBytes(S, o, off, n); }
  void storeBytes(Obj *o, uint64_t off, unsigned n, const Val &v) {
    if (!v.e) { memcpy(&o->c[off], &v.c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    E e = v.e; if (e->w < n * 8) e = X.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) { E b = X.extract(e, i * 8, 8); if (b->k == K::Const) { o->c[off + i] = (uint8_t) b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; } }
  void store(State &S, const Val &a, unsigned n, const Val &v) {
    uint64_t addr = cv(S, a), id, off; Obj *o = resolve(S, addr, n, id, off, "store"); if (o->ro) violate(S, "write-const", "store to constant memory"); o = S.mem.wr(id); storeBytes(o, off, n, v); }
  unsigned sizeOf(Type *t) { return (unsigned) DL->getTypeStoreSize(t); }
  Val loadTy(State &S, const Val &a, Type *t) {
    if (t->isIntegerTy() || t->isPointerTy()) { unsigned n = sizeOf(t); if (n > 8) giveUp(S, "wide-load"); Val v = load(S, a, n); unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); if (w < n * 8) { if (v.e) v = mkv(X.extract(v.e, 0, w)); else v.c &= maskw(w); } return v; }
    if (t->isFloatTy() || t->isDoubleTy()) return load(S, a, sizeOf(t));
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); Val r; r.agg = std::make_shared<std::vector<Val>>(); uint64_t base = cv(S, a); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadTy(S, mkv(base + sl->getElementOffset(i)), st->getElementType(i))); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); uint64_t base = cv(S, a), es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadTy(S, mkv(base + i * es), at->getElementType())); return r; }
    giveUp(S, "unsupported-load-type"); }
  void storeTy(State &S, const Val &a, Type *t, const Val &v) {
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) { unsigned n = sizeOf(t); if (n > 8) giveUp(S, "wide-store"); store(S, a, n, v); return; }
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); uint64_t base = cv(S, a); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(S, mkv(base + sl->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t base = cv(S, a), es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(S, mkv(base + i * es), at->getElementType(), (*v.agg)[i]); return; }
    giveUp(S, "unsupported-store-type"); }

  // ---------- constants
  Val undefOf(Type *t) {
    if (t->isIntegerTy() || t->isPointerTy()) { unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); if (w > 64) return Val(); std::vector<E> p; for (unsigned i = 0; i < (w + 7) / 8; i++) p.push_back(U8); return mkv(X.extract(X.fromPieces(p), 0, w)); }
    if (auto *st = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(undefOf(st->getElementType(i))); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(undefOf(at->getElementType())); return r; }
    return Val(); }
  Val constVal(const Constant *c) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return mkv(ci->getValue().trunc(64).getZExtValue()); return mkv(ci->getZExtValue()); }
    if (isa<ConstantPointerNull>(c)) return mkv((uint64_t) 0);
    if (auto *cf = dyn_cast<ConstantFP>(c)) return mkv(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c)) {
      Val r; r.agg = std::make_shared<std::vector<Val>>();
      if (auto *st = dyn_cast<StructType>(t)) for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(constVal(Constant::getNullValue(st->getElementType(i))));
      else if (auto *at = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(constVal(Constant::getNullValue(at->getElementType())));
      return r; }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c->getNumOperands(); i++) r.agg->push_back(constVal(cast<Constant>(c->getOperand(i)))); return r; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constVal(cd->getElementAsConstant(i))); return r; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { if (auto *F = dyn_cast<Function>(gv)) return mkv(func(const_cast<Function *>(F))->addr); fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str()); return mkv((uint64_t) 0); } return mkv(it->second); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto *go = cast<GEPOperator>(ce); if (!go->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); } return mkv(constVal(ce->getOperand(0)).c + (uint64_t) off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constVal(ce->getOperand(0));
        case Instruction::Trunc: return mkv(constVal(ce->getOperand(0)).c & maskw(t->getIntegerBitWidth()));
        case Instruction::Add: return mkv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::Sub: return mkv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        default: break; } }
    if (isa<ConstantTokenNone>(c)) return Val();
    Str s; raw_string_ostream o(s); c->print(o); fprintf(stderr, "unsupported constant %s\n", o.str().c_str()); return Val(); }
  void initGlobal(Obj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), cast<Constant>(c->getAggregateElement(i))); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
      for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(o, off + i * es, cast<Constant>(c->getAggregateElement(i))); return; }
    Val v = constVal(c); uint64_t n = DL->getTypeStoreSize(t); if (n > 8) { if (auto *ci = dyn_cast<ConstantInt>(c)) { memcpy(&o->c[off], ci->getValue().getRawData(), n); return; } fprintf(stderr, "wide global init\n"); return; } memcpy(&o->c[off], &v.c, n); }

  // ---------- function table
  KFunc *func(Function *F) {
    auto it = funcs.find(F); if (it != funcs.end()) return it->second;
    KFunc *k = new KFunc(); funcs[F] = k; k->F = F; k->name = F->getName().str(); k->pretty = llvm::demangle(k->name);
    uint64_t id = initMem.alloc(1, OK::Func, false); k->addr = addrOf(id); funcAt[k->addr] = k; gaddr[F] = k->addr;
    k->ext = classify(F, *k);
    return k; }
  Ext classify(Function *F, KFunc &k) {
    static const std::map<Str, Ext> T = {
      {"malloc", Ext::Malloc}, {"calloc", Ext::Calloc}, {"realloc", Ext::Realloc}, {"free", Ext::Free}, {"_Znwm", Ext::New}, {"_Znam", Ext::NewArr}, {"_ZnwmRKSt9nothrow_t", Ext::New}, {"_ZnamRKSt9nothrow_t", Ext::NewArr},
      {"_ZdlPv", Ext::Delete}, {"_ZdlPvm", Ext::Delete}, {"_ZdaPv", Ext::DeleteArr}, {"_ZdaPvm", Ext::DeleteArr}, {"_ZdlPvmSt11align_val_t", Ext::Delete}, {"memcpy", Ext::Memcpy}, {"memmove", Ext::Memcpy}, {"memset", Ext::Memset}, {"memcmp", Ext::Memcmp}, {"bcmp", Ext::Bcmp}, {"__memcpy_chk", Ext::Memcpy}, {"__memmove_chk", Ext::Memcpy}, {"__memset_chk", Ext::Memset},
      {"__cxa_guard_acquire", Ext::GuardAcq}, {"__cxa_guard_release", Ext::GuardRel}, {"__cxa_guard_abort", Ext::Nop}, {"__cxa_atexit", Ext::NopRet0}, {"__assert_fail", Ext::AssertFail}, {"abort", Ext::Abort}, {"_ZSt9terminatev", Ext::Abort}, {"__clang_call_terminate", Ext::Abort}, {"exit", Ext::Abort}, {"_exit", Ext::Abort}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", Ext::AssertFail},
      {"__cxa_throw", Ext::Throw}, {"__cxa_rethrow", Ext::Throw}, {"_Unwind_Resume", Ext::Throw}, {"__cxa_allocate_exception", Ext::AllocExc}, {"__cxa_pure_virtual", Ext::PureVirtual}, {"__cxa_free_exception", Ext::Nop}, {"__cxa_begin_catch", Ext::BeginCatch}, {"__cxa_get_exception_ptr", Ext::BeginCatch}, {"__cxa_end_catch", Ext::EndCatch}, {"_ZNSt8ios_base4InitC1Ev", Ext::Nop}, {"_ZNSt8ios_base4InitD1Ev", Ext::Nop},
      {"sym_int", Ext::SymInt}, {"sym_fill", Ext::SymFill}, {"sym_assume", Ext::SymAssume}, {"sym_check", Ext::SymCheck}, {"sym_reach", Ext::SymReach}, {"sym_trace", Ext::SymTrace}, {"sym_concrete", Ext::SymConc}, {"sym_param", Ext::SymParam}, {"sym_live", Ext::SymLive}, {"sym_poison", Ext::SymPoison}, {"sym_is_symbolic", Ext::SymIsSym}, {"sym_note", Ext::SymNote}, {"sym_eqmem", Ext::SymEqMem},
      {"puts", Ext::NopRet0}, {"printf", Ext::NopRet0}, {"putchar", Ext::NopRet0}, {"fflush", Ext::NopRet0} };
    const Str &n = k.name;
    if (F->isIntrinsic()) { k.intrin = F->getIntrinsicID(); return Ext::Intrin; }
    static const std::set<Str> soft = {"puts", "printf", "putchar", "fflush"}; bool body = !F->isDeclaration();
    auto it = T.find(n); if (it != T.end() && !(body && soft.count(n))) return it->second;
    if (!body && n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != Str::npos) return Ext::Throw;
    if (!F->isDeclaration()) {
      if (auto *sp = F->getSubprogram()) k.isTarget = sp->getFilename().find("/bnl/") != StringRef::npos; return Ext::Body; }
    return Ext::Unsup; }

  Opnd opnd(KFunc *k, std::map<const Value *, int> &regs, const Value *v) {
    (void) k; Opnd o; if (auto *c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; } auto it = regs.find(v); if (it == regs.end()) { o.v = Val(); return o; } o.reg = it->second; return o; }
  void compile(KFunc *k) {
    if (k->compiled) return; k->compiled = true; Function *F = k->F; std::map<const Value *, int> regs; std::map<const BasicBlock *, int> bbs; int n = 0;
    for (auto &a : F->args()) regs[&a] = n++;
    for (auto &bb : *F) { int bi = (int) bbs.size(); bbs[&bb] = bi; for (auto &I : bb) if (!I.getType()->isVoidTy()) regs[&I] = n++; }
    k->nregs = (unsigned) n; k->blocks.resize(bbs.size());
    for (auto &bb : *F) {
      KBlock &kb = k->blocks[bbs[&bb]];
      std::map<int, std::vector<std::pair<int, Opnd>>> ph;
      for (auto &I : bb) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch) continue; }
        if (auto *p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph[bbs[p->getIncomingBlock(i)]].push_back({regs[p], opnd(k, regs, p->getIncomingValue(i))}); continue; }
        KInst x; x.I = &I; if (!I.getType()->isVoidTy()) x.dst = regs[&I]; x.ty = I.getType();
        auto add = [&](const Value *v) { x.ops.push_back(opnd(k, regs, v)); };
        auto wid = [&](Type *t) -> uint8_t { return t->isPointerTy() ? 64 : t->isIntegerTy() && t->getIntegerBitWidth() <= 64 ? (uint8_t) t->getIntegerBitWidth() : 0; };
        switch (I.getOpcode()) {
          case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); x.op = Op::Alloca; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); add(a->getArraySize()); break; }
          case Instruction::Load: x.op = Op::Load; add(I.getOperand(0)); break;
          case Instruction::Store: x.op = Op::Store; add(I.getOperand(0)); add(I.getOperand(1)); x.ty = I.getOperand(0)->getType(); break;
          case Instruction::GetElementPtr: {
            x.op = Op::Gep; auto *g = cast<GetElementPtrInst>(&I); add(g->getPointerOperand()); uint64_t off = 0;
            for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
              Value *iv = gti.getOperand();
              if (StructType *st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
              uint64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(iv)) { off += (uint64_t) ci->getSExtValue() * sc; continue; }
              add(iv); x.gep.push_back({(int) x.ops.size() - 1, sc}); x.idx.push_back(iv->getType()->getIntegerBitWidth()); }
            x.imm = off; break; }
          case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) { x.op = Op::CondBr; add(b->getCondition()); x.t0 = bbs[b->getSuccessor(0)]; x.t1 = bbs[b->getSuccessor(1)]; } else { x.op = Op::Br; x.t0 = bbs[b->getSuccessor(0)]; } break; }
          case Instruction::Switch: { auto *s = cast<SwitchInst>(&I); x.op = Op::Switch; add(s->getCondition()); x.w = wid(s->getCondition()->getType()); x.t0 = bbs[s->getDefaultDest()]; for (auto c : s->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbs[c.getCaseSuccessor()]}); break; }
          case Instruction::Ret: x.op = Op::Ret; if (I.getNumOperands()) add(I.getOperand(0)); break;
          case Instruction::Invoke: case Instruction::Call: {
            auto *cb = cast<CallBase>(&I); x.op = Op::Call; for (auto &a : cb->args()) add(a.get());
            for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) x.byval.push_back({i, DL->getTypeAllocSize(cb->getParamByValType(i))});
            Value *cal = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
            if (auto *cf = dyn_cast<Function>(cal)) { x.callee = func(cf); x.ext = x.callee->ext; x.intrin = x.callee->intrin; } else if (isa<InlineAsm>(cal)) { x.ext = Ext::Nop; } else add(cb->getCalledOperand());
            if (auto *inv = dyn_cast<InvokeInst>(&I)) { x.t0 = bbs[inv->getNormalDest()]; x.t1 = bbs[inv->getUnwindDest()]; } else x.t0 = -1; break; }
          case Instruction::Select: x.op = Op::Select; add(I.getOperand(0)); add(I.getOperand(1)); add(I.getOperand(2)); x.w = wid(I.getType()); break;
          case Instruction::ICmp: x.op = Op::ICmp; x.sub = (uint8_t) cast<ICmpInst>(&I)->getPredicate(); add(I.getOperand(0)); add(I.getOperand(1)); x.w = wid(I.getOperand(0)->getType()); if (!x.w) x.op = Op::Unsupported; break;
          case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            x.op = Op::Bin; x.sub = (uint8_t) I.getOpcode(); add(I.getOperand(0)); add(I.getOperand(1)); x.w = wid(I.getType()); if (!x.w) x.op = Op::Unsupported;
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { x.nsw = ob->hasNoSignedWrap(); x.nuw = ob->hasNoUnsignedWrap(); }
            x.ub = I.getMetadata("symx.ub"); x.nsw &= x.ub; break; // a speculated instruction has lost its tag: its overflow is poison, not undefined behaviour
          case Instruction::Trunc: x.op = Op::Trunc; add(I.getOperand(0)); x.w = wid(I.getType()); if (!wid(I.getOperand(0)->getType())) x.op = Op::Unsupported; break;
          case Instruction::ZExt: x.op = Op::ZExt; add(I.getOperand(0)); x.w = wid(I.getType()); x.sub = wid(I.getOperand(0)->getType()); if (!x.w) x.op = Op::Unsupported; break;
          case Instruction::SExt: x.op = Op::SExt; add(I.getOperand(0)); x.w = wid(I.getType()); x.sub = wid(I.getOperand(0)->getType()); if (!x.w) x.op = Op::Unsupported; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: x.op = Op::Copy; add(I.getOperand(0)); x.w = wid(I.getType()); if (I.getOpcode() == Instruction::PtrToInt && x.w != 64) x.op = x.w ? Op::Trunc : Op::Unsupported; break;
          case Instruction::ExtractValue: x.op = Op::ExtractValue; add(I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) x.idx.push_back(i); break;
          case Instruction::InsertValue: x.op = Op::InsertValue; add(I.getOperand(0)); add(I.getOperand(1)); for (unsigned i : cast<InsertValueInst>(&I)->indices()) x.idx.push_back(i); break;
          case Instruction::Unreachable: x.op = Op::Unreachable; break;
          case Instruction::Fence: continue;
          case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&I); x.op = Op::AtomicRMW; x.sub = (uint8_t) r->getOperation(); add(r->getPointerOperand()); add(r->getValOperand()); x.w = wid(r->getType()); break; }
          case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(&I); x.op = Op::CmpXchg; add(r->getPointerOperand()); add(r->getCompareOperand()); add(r->getNewValOperand()); x.w = wid(r->getCompareOperand()->getType()); if (!x.w) x.op = Op::Unsupported; break; }
          case Instruction::LandingPad: { auto *lp = cast<LandingPadInst>(&I); x.op = Op::LandingPad; x.nsw = lp->isCleanup(); for (unsigned c = 0; c < lp->getNumClauses(); c++) if (lp->isCatch(c)) add(lp->getClause(c)); break; }
          case Instruction::Resume: x.op = Op::Resume; break;
          default: x.op = Op::Unsupported; break;
        }
        kb.insts.push_back(std::move(x));
      }
      for (auto &p : ph) kb.phis.push_back({p.first, std::move(p.second)});
    } }

  // ---------- execution
  Val get(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.regs[o.reg] : o.v; }
  void jump(State &S, int to) {
    Frame &f = S.st.back(); int from = f.bb; KBlock &kb = f.f->blocks[to]; kb.covered = true;
    for (auto &p : kb.phis) if (p.first == from) { std::vector<Val> vs; for (auto &q : p.second) vs.push_back(get(f, q.second)); for (size_t i = 0; i < vs.size(); i++) f.regs[p.second[i].first] = vs[i]; break; }
    f.bb = to; f.ip = 0; }
  void pushCall(State &S, KFunc *k, std::vector<Val> args) {
    compile(k); k->calls++; if (S.st.size() > 400) violate(S, "stack-overflow", "call depth exceeds 400");
    Frame f; f.f = k; f.regs.resize(k->nregs); for (size_t i = 0; i < args.size() && i < k->F->arg_size(); i++) f.regs[i] = args[i];
    if (args.size() > k->F->arg_size() && !k->F->isVarArg()) giveUp(S, "bad-arity");
    k->blocks[0].covered = true; S.st.push_back(std::move(f)); }
  // Exceptions (for harnesses that ask for them): frames are left up to the next landing pad; selectors are numbers of types.
  uint64_t stdException() { auto *g = M->getNamedValue("_ZTISt9exception"); return g && gaddr.count(g) ? gaddr[g] : ~0ULL; }
  uint64_t typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it == typeIds.end()) it = typeIds.emplace(ti, typeIds.size() + 1).first; return it->second; }
  void unwind(State &S) {
    bool first = true;
    while (!S.st.empty()) {
      Frame &f = S.st.back(); KInst &x = f.f->blocks[f.bb].insts[f.ip]; if (x.op == Op::Call && x.t1 >= 0) { jump(S, x.t1); return; }
      if (f.f->F->doesNotThrow() && !first) violate(S, "throw", "exception leaves a function that cannot throw"); first = false;
      for (uint64_t id : f.allocas) S.mem.drop(id); S.st.pop_back(); }
    violate(S, "throw", "uncaught exception"); }
  void ret(State &S, const Val *v) {
    for (uint64_t id : S.st.back().allocas) S.mem.drop(id);
    S.st.pop_back(); if (S.st.empty()) return;
    Frame &f = S.st.back(); KInst &x = f.f->blocks[f.bb].insts[f.ip]; if (v && x.dst >= 0) f.regs[x.dst] = *v;
    if (x.t0 >= 0) jump(S, x.t0); else f.ip++; }
  Val arith(State &S, KInst &x, const Val &a, const Val &b) {
    unsigned w = x.w; K k;
    switch (x.sub) {
      case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break; case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break;
      case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break; case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; default: k = K::AShr; break; }
    bool div = k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem, shift = k == K::Shl || k == K::LShr || k == K::AShr;
    if (!a.e && !b.e) {
      if (div && !b.c) violate(S, "div-zero", "division by zero");
      if (shift && x.ub && b.c >= w) violate(S, "bad-shift", "shift amount " + std::to_string(b.c) + " >= width " + std::to_string(w));
      if (x.nsw && w >= 32 && (k == K::Add || k == K::Sub || k == K::Mul)) { __int128 p = sx(a.c, w), q = sx(b.c, w), r = k == K::Add ? p + q : k == K::Sub ? p - q : p * q; if (r != sx((uint64_t) r, w)) violate(S, "signed-overflow", "signed integer overflow"); }
      return mkv(Exprs::fold(k, a.c, b.c, w)); }
    E ea = simp(S, ex(a, w)), eb = simp(S, ex(b, w));
    if (div && eb->k != K::Const) require(S, X.lnot(X.eq(eb, X.con(0, w))), "div-zero", "division by zero");
    if (div && eb->k == K::Const && !eb->c) violate(S, "div-zero", "division by zero");
    if (shift && x.ub && eb->k == K::Const && eb->c >= w) violate(S, "bad-shift", "shift amount " + std::to_string(eb->c) + " >= width " + std::to_string(w));
    if (shift && x.ub && eb->k != K::Const) { uint64_t lo, hi; X.range(eb, lo, hi); if (hi >= w) require(S, X.ult(eb, X.con(w, w)), "bad-shift", "shift amount >= width"); }
    if (x.nsw && w >= 32 && w <= 62 && (k == K::Add || k == K::Sub)) {
      uint64_t al, ah, bl, bh; X.range(ea, al, ah); X.range(eb, bl, bh); uint64_t half = 1ULL << (w - 1);
      if (!(ah < half / 2 && bh < half / 2)) { E p = X.sext(ea, w + 1), q = X.sext(eb, w + 1), r = X.bin(k, p, q); E ok = X.eq(X.extract(r, w, 1), X.extract(r, w - 1, 1)); if (!(ok->k == K::Const && ok->c)) require(S, ok, "signed-overflow", "signed integer overflow"); } }
    if (x.nsw && w == 32 && k == K::Mul) { uint64_t al, ah, bl, bh; X.range(ea, al, ah); X.range(eb, bl, bh); unsigned __int128 mx = (unsigned __int128) ah * bh; if (mx >= (1ULL << 31)) { E p = X.sext(ea, 64), q = X.sext(eb, 64), r = X.bin(K::Mul, p, q); require(S, X.eq(X.sext(X.extract(r, 0, 32), 64), r), "signed-overflow", "signed integer overflow"); } }
    return mkv(X.bin(k, ea, eb)); }
  Val icmp(State &S, KInst &x, const Val &a, const Val &b) {
    unsigned w = x.w; auto p = (CmpInst::Predicate) x.sub;
    if (!a.e && !b.e) {
      uint64_t u = a.c, v = b.c; int64_t s = sx(u, w), t = sx(v, w); bool r;
      switch (p) { case CmpInst::ICMP_EQ: r = u == v; break; case CmpInst::ICMP_NE: r = u != v; break; case CmpInst::ICMP_UGT: r = u > v; break; case CmpInst::ICMP_UGE: r = u >= v; break; case CmpInst::ICMP_ULT: r = u < v; break; case CmpInst::ICMP_ULE: r = u <= v; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; default: r = s <= t; break; }
      return mkv((uint64_t) r); }
    E ea = simp(S, ex(a, w)), eb = simp(S, ex(b, w)), r;
    switch (p) { case CmpInst::ICMP_EQ: r = X.eq(ea, eb); break; case CmpInst::ICMP_NE: r = X.lnot(X.eq(ea, eb)); break; case CmpInst::ICMP_UGT: r = X.ult(eb, ea); break; case CmpInst::ICMP_UGE: r = X.lnot(X.ult(ea, eb)); break; case CmpInst::ICMP_ULT: r = X.ult(ea, eb); break; case CmpInst::ICMP_ULE: r = X.lnot(X.ult(eb, ea)); break; case CmpInst::ICMP_SGT: r = X.slt(eb, ea); break; case CmpInst::ICMP_SGE: r = X.lnot(X.slt(ea, eb)); break; case CmpInst::ICMP_SLT: r = X.slt(ea, eb); break; default: r = X.lnot(X.slt(eb, ea)); break; }
    return mkv(r); }
  uint64_t heapAlloc(State &S, uint64_t size, uint8_t ak) {
    if (size > MAXOBJ) violate(S, "throw", "allocation of " + std::to_string(size) + " bytes (std::bad_alloc)");
    uint64_t id = S.mem.alloc(size, OK::Heap, true); S.mem.wr(id)->allocKind = ak; S.live++; return addrOf(id); }
  void heapFree(State &S, uint64_t addr, uint8_t ak) {
    if (!addr) return; uint64_t id = addr >> SLOT; Obj *o = S.mem.get(id);
    if (addr < (1ULL << SLOT) || !o || o->kind != OK::Heap) violate(S, "bad-free", "free of non-heap pointer");
    if (o->freed) violate(S, "double-free", "double free");
    if (addr != addrOf(id)) violate(S, "bad-free", "free of interior pointer");
    if (o->allocKind != ak) violate(S, "bad-free", "allocation/deallocation mismatch");
    o = S.mem.wr(id); o->freed = true; o->c.clear(); o->c.shrink_to_fit(); o->s.clear(); if (id >= initNext) S.live--; }
  Str cstr(State &S, uint64_t a) { Str r; uint64_t id = a >> SLOT, off = (a & ((1ULL << SLOT) - 1)) - BASE; Obj *o = S.mem.get(id); if (!o || o->freed) return "?"; while (off < o->size && o->c[off]) r += (char) o->c[off++]; return r; }
  void memcpyOp(State &S, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return; uint64_t di, doff, si, soff; Obj *so = resolve(S, s, n, si, soff, "memcpy read"); resolve(S, d, n, di, doff, "memcpy write"); if (S.mem.get(di)->ro) violate(S, "write-const", "memcpy to constant memory");
    std::vector<uint8_t> cc(so->c.begin() + (long) soff, so->c.begin() + (long) (soff + n)); std::vector<E> ss; if (!so->s.empty()) ss.assign(so->s.begin() + (long) soff, so->s.begin() + (long) (soff + n));
    Obj *o = S.mem.wr(di); memcpy(&o->c[doff], cc.data(), n);
    if (!ss.empty()) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->s[doff + i] = ss[i]; }
    else if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[doff + i] = nullptr; }
  E byteAt(Obj *o, uint64_t off) { return !o->s.empty() && o->s[off] ? o->s[off] : X.con(o->c[off], 8); }
  Val memcmpOp(State &S, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
    if (!n) return mkv((uint64_t) 0); uint64_t ai, ao, bi, bo; Obj *p = resolve(S, a, n, ai, ao, "memcmp"), *q = resolve(S, b, n, bi, bo, "memcmp");
    E all = X.tru(), lt = X.fls();
    for (uint64_t i = n; i-- > 0;) { E x = byteAt(p, ao + i), y = byteAt(q, bo + i); E e = X.eq(x, y); if (!eqOnly) lt = X.ite(e, lt, X.ult(x, y)); all = X.bin(K::And, e, all); if (all->k == K::Const && !all->c && eqOnly) break; }
    all = simp(S, all);
    E r = eqOnly ? X.ite(all, X.con(0, 32), X.con(1, 32)) : X.ite(all, X.con(0, 32), X.ite(lt, X.con(0xffffffff, 32), X.con(1, 32))); return mkv(r); }
  unsigned freshSym(State &S) { unsigned i = S.nsym++; if (i >= MAXSYM) giveUp(S, "too-many-symbols"); maxSyms = std::max<uint64_t>(maxSyms, i); if (S.model.size() <= i) S.model.resize(MAXSYM, 0); return i; }

  void intrinsic(State &S, Frame &f, KInst &x) {
    auto setr = [&](const Val &v) { if (x.dst >= 0) f.regs[x.dst] = v; };
    auto arg = [&](unsigned i) { return get(f, x.ops[i]); };
    unsigned w = x.ty->isIntegerTy() ? x.ty->getIntegerBitWidth() : 0;
    switch (x.intrin) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = cv(S, arg(2)); uint64_t d = cv(S, arg(0)), s = cv(S, arg(1)); memcpyOp(S, d, s, n); break; }
      case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = cv(S, arg(2)); uint64_t d = cv(S, arg(0)); memsetOp(S, d, arg(1), n); break; }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: setr(arg(0)); break;
      case Intrinsic::assume: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::var_annotation: case Intrinsic::invariant_end: break;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setr(arg(0)); break;
      case Intrinsic::objectsize: setr(mkv(cv(S, arg(1)) ? (uint64_t) 0 : maskw(w))); break;
      case Intrinsic::eh_typeid_for: setr(mkv(typeId(cv(S, arg(0))))); break;
      case Intrinsic::is_constant: setr(mkv((uint64_t) 0)); break;
      case Intrinsic::stacksave: setr(mkv((uint64_t) 0)); break; case Intrinsic::stackrestore: break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: violate(S, "abort", "trap");
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ww = cast<StructType>(x.ty)->getElementType(0)->getIntegerBitWidth(); Val a = arg(0), b = arg(1); E ea = ex(a, ww), eb = ex(b, ww); E r, o; auto id = x.intrin;
        if (id == Intrinsic::uadd_with_overflow) { r = X.bin(K::Add, ea, eb); o = X.ult(r, ea); }
        else if (id == Intrinsic::usub_with_overflow) { r = X.bin(K::Sub, ea, eb); o = X.ult(ea, eb); }
        else if (id == Intrinsic::umul_with_overflow) { r = X.bin(K::Mul, ea, eb); if (ea->k == K::Const && eb->k == K::Const) o = X.con((((unsigned __int128) ea->c * eb->c) >> ww) != 0, 1); else { if (eb->k != K::Const) std::swap(ea, eb); if (eb->k == K::Const) o = eb->c ? X.ult(X.con(maskw(ww) / eb->c, ww), ea) : X.fls(); else if (ww <= 32) { E p = X.bin(K::Mul, X.zext(ea, 64), X.zext(eb, 64)); o = X.lnot(X.eq(X.extract(p, ww, 64 - ww), X.con(0, 64 - ww))); } else giveUp(S, "umul-overflow"); } }
        else { K k = id == Intrinsic::sadd_with_overflow ? K::Add : id == Intrinsic::ssub_with_overflow ? K::Sub : K::Mul; r = X.bin(k, ea, eb); if (ww <= 32) { E p = X.bin(k, X.sext(ea, 64), X.sext(eb, 64)); o = X.lnot(X.eq(X.sext(r, 64), p)); } else if (ea->k == K::Const && eb->k == K::Const) { __int128 p = sx(ea->c, ww), q = sx(eb->c, ww), z = k == K::Add ? p + q : k == K::Sub ? p - q : p * q; o = X.con(z != (__int128) sx((uint64_t) z, ww), 1); } else giveUp(S, "signed-overflow-intrinsic"); }
        Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkv(r)); v.agg->push_back(mkv(o)); setr(v); break; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { E a = ex(arg(0), w), b = ex(arg(1), w); bool sg = x.intrin == Intrinsic::smin || x.intrin == Intrinsic::smax, mn = x.intrin == Intrinsic::umin || x.intrin == Intrinsic::smin; E lt = sg ? X.slt(a, b) : X.ult(a, b); setr(mkv(mn ? X.ite(lt, a, b) : X.ite(lt, b, a))); break; }
      case Intrinsic::abs: { E a = ex(arg(0), w); setr(mkv(X.ite(X.slt(a, X.con(0, w)), X.bin(K::Sub, X.con(0, w), a), a))); break; }
      case Intrinsic::bswap: { E a = ex(arg(0), w); std::vector<E> p; for (unsigned i = 0; i < w / 8; i++) p.push_back(X.extract(a, i * 8, 8)); setr(mkv(X.fromPieces(p))); break; }
      case Intrinsic::fshl: case Intrinsic::fshr: { E a = ex(arg(0), w), b = ex(arg(1), w); uint64_t s = cv(S, arg(2)) % w; if (x.intrin == Intrinsic::fshr) s = (w - s) % w; if (!s) setr(mkv(x.intrin == Intrinsic::fshl ? a : (cv(S, arg(2)) % w ? a : b))); else setr(mkv(X.bin(K::Or, X.bin(K::Shl, a, X.con(s, w)), X.bin(K::LShr, b, X.con(w - s, w))))); break; }
      case Intrinsic::ctpop: { E a = ex(arg(0), w); E r = X.con(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(K::Add, r, X.zext(X.extract(a, i, 1), w)); setr(mkv(r)); break; }
      case Intrinsic::ctlz: { E a = ex(arg(0), w); E r = X.con(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.eq(X.extract(a, i, 1), X.con(1, 1)), X.con(w - 1 - i, w), r); setr(mkv(r)); break; }
      case Intrinsic::cttz: { E a = ex(arg(0), w); E r = X.con(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.eq(X.extract(a, i, 1), X.con(1, 1)), X.con(i, w), r); setr(mkv(r)); break; }
      case Intrinsic::usub_sat: { E a = ex(arg(0), w), b = ex(arg(1), w); setr(mkv(X.ite(X.ult(a, b), X.con(0, w), X.bin(K::Sub, a, b)))); break; }
      case Intrinsic::uadd_sat: { E a = ex(arg(0), w), b = ex(arg(1), w); E r = X.bin(K::Add, a, b); setr(mkv(X.ite(X.ult(r, a), X.con(~0ULL, w), r))); break; }
      default: giveUp(S, "intrinsic:" + x.callee->name);
    } }
  void memsetOp(State &S, uint64_t d, const Val &v, uint64_t n) {
    if (!n) return; uint64_t id, off; Obj *o = resolve(S, d, n, id, off, "memset"); if (o->ro) violate(S, "write-const", "memset of constant memory"); o = S.mem.wr(id); E e = v.e; if (e && e->w > 8) e = X.extract(e, 0, 8);
    for (uint64_t i = 0; i < n; i++) { if (!e) { o->c[off + i] = (uint8_t) v.c; if (!o->s.empty()) o->s[off + i] = nullptr; } else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = e; } } }

  bool callExt(State &S, Frame &f, KInst &x) { // returns true when the instruction is finished (advance)
    auto arg = [&](unsigned i) { return get(f, x.ops[i]); }; auto setr = [&](const Val &v) { if (x.dst >= 0) f.regs[x.dst] = v; };
    if (!vec.empty() && x.callee) {}
    switch (x.ext) {
      case Ext::Intrin: intrinsic(S, f, x); break;
      case Ext::Malloc: setr(mkv(heapAlloc(S, cv(S, arg(0)), 1))); break;
      case Ext::Calloc: { uint64_t n = cv(S, arg(0)) * cv(S, arg(1)); uint64_t a = heapAlloc(S, n, 1); memsetOp(S, a, mkv((uint64_t) 0), n); setr(mkv(a)); break; }
      case Ext::Realloc: { uint64_t p = cv(S, arg(0)), n = cv(S, arg(1)); uint64_t a = heapAlloc(S, n, 1); if (p) { uint64_t id, off; Obj *o = resolve(S, p, 0, id, off, "realloc"); memcpyOp(S, a, p, std::min<uint64_t>(n, o->size)); heapFree(S, p, 1); } setr(mkv(a)); break; }
      case Ext::New: setr(mkv(heapAlloc(S, cv(S, arg(0)), 2))); break;
      case Ext::NewArr: setr(mkv(heapAlloc(S, cv(S, arg(0)), 3))); break;
      case Ext::Free: heapFree(S, cv(S, arg(0)), 1); break;
      case Ext::Delete: heapFree(S, cv(S, arg(0)), 2); break;
      case Ext::DeleteArr: heapFree(S, cv(S, arg(0)), 3); break;
      case Ext::Memcpy: { uint64_t n = cv(S, arg(2)), d = cv(S, arg(0)), s = cv(S, arg(1)); memcpyOp(S, d, s, n); setr(mkv(d)); break; }
      case Ext::Memset: { uint64_t n = cv(S, arg(2)), d = cv(S, arg(0)); memsetOp(S, d, arg(1), n); setr(mkv(d)); break; }
      case Ext::Memcmp: case Ext::Bcmp: { uint64_t n = cv(S, arg(2)), a = cv(S, arg(0)), b = cv(S, arg(1)); setr(memcmpOp(S, a, b, n, x.ext == Ext::Bcmp)); break; }
      case Ext::GuardAcq: { uint64_t a = cv(S, arg(0)); Val v = load(S, mkv(a), 1); setr(mkv((uint64_t) (v.c == 0))); break; }
      case Ext::GuardRel: { uint64_t a = cv(S, arg(0)); store(S, mkv(a), 1, mkv((uint64_t) 1)); break; }
      case Ext::Nop: break;
      case Ext::NopRet0: setr(mkv((uint64_t) 0)); break;
      case Ext::AssertFail: violate(S, "assert", "assertion failed: " + cstr(S, cv(S, arg(x.callee->name[1] == '_' ? 0 : 3))));
      case Ext::Abort: violate(S, "abort", "process terminated by " + x.callee->name);
      case Ext::Throw: if (!unwinding) violate(S, "throw", "exception thrown: " + x.callee->pretty);
        if (x.callee->name == "__cxa_throw") { S.exc = cv(S, arg(0)); S.exty = cv(S, arg(1)); S.exdtor = cv(S, arg(2)); } else if (x.callee->name != "__cxa_rethrow") S.exc = S.exty = S.exdtor = 0;
        unwind(S); return false;
      case Ext::AllocExc: if (!unwinding) violate(S, "throw", "exception allocated"); setr(mkv(addrOf(S.mem.alloc(cv(S, arg(0)), OK::Heap, false)))); break;
      case Ext::BeginCatch: setr(arg(0)); break;
      case Ext::EndCatch: break;
      case Ext::PureVirtual: violate(S, "abort", "pure virtual call");
      case Ext::SymInt: {
        uint64_t n = cv(S, arg(0)); std::vector<E> p(n); unsigned first = S.nsym; for (uint64_t i = 0; i < n; i++) p[n - 1 - i] = X.sym(freshSym(S)); (void) first; S.syms.push_back({cstr(S, cv(S, arg(1))), (unsigned) n}); E e = X.fromPieces(p); setr(mkv(X.zext(e, 64))); break; }
      case Ext::SymFill: {
        uint64_t a = cv(S, arg(0)), n = cv(S, arg(1)); S.syms.push_back({cstr(S, cv(S, arg(2))), (unsigned) n}); if (n) { uint64_t id, off; resolve(S, a, n, id, off, "sym_fill"); Obj *o = S.mem.wr(id); if (o->s.empty()) o->s.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->s[off + i] = X.sym(freshSym(S)); } break; }
      case Ext::SymPoison: { uint64_t a = cv(S, arg(0)), n = cv(S, arg(1)); if (n) { uint64_t id, off; resolve(S, a, n, id, off, "sym_poison"); Obj *o = S.mem.wr(id); if (o->s.empty()) o->s.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->s[off + i] = U8; } break; }
      case Ext::SymEqMem: { uint64_t a = cv(S, arg(0)), b = cv(S, arg(1)), n = cv(S, arg(2)); Val v = memcmpOp(S, a, b, n, true); E e = X.eq(ex(v, 32), X.con(0, 32)); setr(mkv(e)); break; }
      case Ext::SymAssume: {
        Val v = arg(0); if (!v.e) { if (!v.c) { pruned++; throw PathEnd(); } break; }
        E c = simp(S, v.e); if (c->w > 1) c = X.lnot(X.eq(c, X.con(0, c->w))); if (c->k == K::Const) { if (!c->c) { pruned++; throw PathEnd(); } break; }
        if (!X.eval(c, S.model)) { Model m = S.model; Res r = sat(S, c, m); if (r == Res::Unsat) { pruned++; throw PathEnd(); } if (r == Res::Unknown) giveUp(S, "solver-unknown"); S.model = m; }
        addc(S, c); break; }
      case Ext::SymCheck: {
        Val v = arg(0); Str label = cstr(S, cv(S, arg(1))); checks[label]++;
        E c = v.e ? v.e : X.con(v.c, 1); if (c->w > 1) c = X.lnot(X.eq(c, X.con(0, c->w))); c = simp(S, c);
        if (c->k == K::Const) { if (!c->c) violate(S, "check", label); assertsDischarged++; break; }
        Model m = S.model; Res r = sat(S, X.lnot(c), m);
        if (r == Res::Sat) {
          Model good = S.model; Res g = sat(S, c, good);
          if (g != Res::Sat) violate(S, "check", label, &m);
          try { violate(S, "check", label, &m); } catch (PathEnd &) { if (stop) throw; }
          S.model = good; addc(S, c); break; }
        if (r == Res::Unknown) { incomplete["solver-unknown"]++; S.inconclusive = true; break; }
        assertsDischarged++; break; }
      case Ext::SymReach: { Str l = cstr(S, cv(S, arg(0))); S.reached.push_back(l); break; }
      case Ext::SymNote: { S.notes.push_back(cstr(S, cv(S, arg(0)))); break; }
      case Ext::SymTrace: { Val v = arg(0); uninitCheck(S, ex(v, 64), "observable output"); S.trace.push_back({v, 64}); break; }
      case Ext::SymConc: setr(mkv(cv(S, arg(0)))); break;
      case Ext::SymIsSym: setr(mkv((uint64_t) (arg(0).e != nullptr))); break;
      case Ext::SymParam: { Str l = cstr(S, cv(S, arg(0))); auto it = params.find(l); setr(mkv(it != params.end() ? it->second : cv(S, arg(1)))); break; }
      case Ext::SymLive: setr(mkv((uint64_t) liveBlocks(S))); break;
      default: giveUp(S, "external:" + (x.callee ? x.callee->pretty : Str("?")));
    }
    return true; }

  void step(State &S) {
    Frame &f = S.st.back(); KInst &x = f.f->blocks[f.bb].insts[f.ip]; instrs++;
    if (++S.instrs > maxInstr) violate(S, "hang", "more than " + std::to_string(maxInstr) + " instructions on one path");
    switch (x.op) {
      case Op::Alloca: { uint64_t n = cv(S, get(f, x.ops[0])); uint64_t id = S.mem.alloc(x.imm * n, OK::Stack, true); f.allocas.push_back(id); f.regs[x.dst] = mkv(addrOf(id)); f.ip++; break; }
      case Op::Load: { Val v = loadTy(S, get(f, x.ops[0]), x.ty); f.regs[x.dst] = v; f.ip++; break; }
      case Op::Store: storeTy(S, get(f, x.ops[1]), x.ty, get(f, x.ops[0])); f.ip++; break;
      case Op::Gep: {
        Val b = get(f, x.ops[0]); bool conc = b.conc(); for (auto &g : x.gep) if (!get(f, x.ops[g.first]).conc()) conc = false;
        if (conc) { uint64_t a = b.c + x.imm; for (size_t i = 0; i < x.gep.size(); i++) a += (uint64_t) sx(get(f, x.ops[x.gep[i].first]).c, x.idx[i]) * x.gep[i].second; f.regs[x.dst] = mkv(a); }
        else { E e = X.bin(K::Add, simp(S, ex(b, 64)), X.con(x.imm, 64)); for (size_t i = 0; i < x.gep.size(); i++) { E ie = simp(S, X.sext(ex(get(f, x.ops[x.gep[i].first]), x.idx[i]), 64)); e = X.bin(K::Add, e, X.bin(K::Mul, ie, X.con(x.gep[i].second, 64))); } f.regs[x.dst] = mkv(e); }
        f.ip++; break; }
      case Op::Br: jump(S, x.t0); break;
      case Op::CondBr: { branches++; Val c = get(f, x.ops[0]); bool t = c.e ? decide(S, c.e) : (c.c & 1); jump(S, t ? x.t0 : x.t1); break; }
      case Op::Switch: {
        branches++; Val c = get(f, x.ops[0]); E e = c.e ? simp(S, c.e) : nullptr;
        if (!e || e->k == K::Const) { uint64_t v = e ? e->c : c.c; int to = x.t0; for (auto &p : x.cases) if (p.first == v) { to = p.second; break; } jump(S, to); break; }
        symBranches++; uninitCheck(S, e, "switch");
        // group by target
        std::map<int, E> grp; E any = X.fls(); for (auto &p : x.cases) { E q = X.eq(e, X.con(p.first, x.w)); if (p.second == x.t0) continue; auto it = grp.find(p.second); grp[p.second] = it == grp.end() ? q : X.bin(K::Or, it->second, q); }
        for (auto &g : grp) any = X.bin(K::Or, any, g.second); grp[x.t0] = grp.count(x.t0) ? X.bin(K::Or, grp[x.t0], X.lnot(any)) : X.lnot(any);
        int cur = -1; for (auto &g : grp) if (X.eval(g.second, S.model)) cur = g.first;
        std::vector<std::pair<int, State *>> kids;
        for (auto &g : grp) if (g.first != cur) { Model m = S.model; Res r = sat(S, g.second, m); if (r == Res::Unknown) { incomplete["solver-unknown"]++; S.inconclusive = true; } if (r == Res::Sat) { State *n = fork(S); n->model = m; addc(*n, g.second); kids.push_back({g.first, n}); } }
        for (auto &k : kids) { jump(*k.second, k.first); work.push_back(k.second); }
        if (!kids.empty()) addc(S, grp[cur]); jump(S, cur); break; }
      case Op::Ret: { if (!x.ops.empty()) { Val v = get(f, x.ops[0]); ret(S, &v); } else ret(S, nullptr); break; }
      case Op::Select: { Val c = get(f, x.ops[0]); if (!c.e) { f.regs[x.dst] = get(f, x.ops[(c.c & 1) ? 1 : 2]); } else { Val a = get(f, x.ops[1]), b = get(f, x.ops[2]); E ce = simp(S, c.e); if (ce->k == K::Const) f.regs[x.dst] = ce->c ? a : b; else if (a.agg || b.agg || !x.w) { bool t = decide(S, ce); f.regs[x.dst] = t ? a : b; } else f.regs[x.dst] = mkv(X.ite(ce, ex(a, x.w), ex(b, x.w))); } f.ip++; break; }
      case Op::ICmp: { Val v = icmp(S, x, get(f, x.ops[0]), get(f, x.ops[1])); f.regs[x.dst] = v; f.ip++; break; }
      case Op::Bin: { Val v = arith(S, x, get(f, x.ops[0]), get(f, x.ops[1])); f.regs[x.dst] = v; f.ip++; break; }
      case Op::Trunc: { Val a = get(f, x.ops[0]); f.regs[x.dst] = a.e ? mkv(X.extract(simp(S, a.e), 0, x.w)) : mkv(a.c & maskw(x.w)); f.ip++; break; }
      case Op::ZExt: { Val a = get(f, x.ops[0]); f.regs[x.dst] = a.e ? mkv(X.zext(simp(S, a.e), x.w)) : a; f.ip++; break; }
      case Op::SExt: { Val a = get(f, x.ops[0]); f.regs[x.dst] = a.e ? mkv(X.sext(simp(S, a.e), x.w)) : mkv((uint64_t) sx(a.c, x.sub) & maskw(x.w)); f.ip++; break; }
      case Op::Copy: f.regs[x.dst] = get(f, x.ops[0]); f.ip++; break;
      case Op::ExtractValue: { Val v = get(f, x.ops[0]); for (unsigned i : x.idx) { if (!v.agg) giveUp(S, "extractvalue"); Val t = (*v.agg)[i]; v = t; } f.regs[x.dst] = v; f.ip++; break; }
      case Op::InsertValue: { Val v = get(f, x.ops[0]); Val e = get(f, x.ops[1]); std::function<Val(Val, size_t)> go = [&](Val b, size_t d) -> Val { if (d == x.idx.size()) return e; if (!b.agg) giveUp(S, "insertvalue"); Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[x.idx[d]] = go((*r.agg)[x.idx[d]], d + 1); return r; }; f.regs[x.dst] = go(v, 0); f.ip++; break; }
      case Op::Unreachable: violate(S, "unreachable", "unreachable code executed (undefined behaviour)");
      case Op::AtomicRMW: { Val a = get(f, x.ops[0]), v = get(f, x.ops[1]); Val old = load(S, a, x.w / 8); E o = ex(old, x.w), n; E ve = ex(v, x.w); switch ((AtomicRMWInst::BinOp) x.sub) { case AtomicRMWInst::Add: n = X.bin(K::Add, o, ve); break; case AtomicRMWInst::Sub: n = X.bin(K::Sub, o, ve); break; case AtomicRMWInst::Xchg: n = ve; break; case AtomicRMWInst::And: n = X.bin(K::And, o, ve); break; case AtomicRMWInst::Or: n = X.bin(K::Or, o, ve); break; default: giveUp(S, "atomicrmw"); } store(S, a, x.w / 8, mkv(n)); f.regs[x.dst] = old; f.ip++; break; }
      case Op::CmpXchg: { Val a = get(f, x.ops[0]); Val old = load(S, a, x.w / 8); E o = ex(old, x.w), e = X.eq(o, ex(get(f, x.ops[1]), x.w)); store(S, a, x.w / 8, mkv(X.ite(e, ex(get(f, x.ops[2]), x.w), o))); Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(mkv(e)); f.regs[x.dst] = r; f.ip++; break; }
      case Op::Call: {
        KFunc *k = x.callee; 
        if (!k) {
          if (x.ext == Ext::Nop) { f.ip++; break; }
          uint64_t a = cv(S, get(f, x.ops.back())); auto it = funcAt.find(a); if (it == funcAt.end()) violate(S, a < (1ULL << SLOT) ? "null-deref" : "wild-pointer", "call through invalid function pointer"); k = it->second; }
        if (k->ext == Ext::Body) {
          std::vector<Val> args; size_t n = x.ops.size() - (x.callee ? 0 : 1); for (size_t i = 0; i < n; i++) args.push_back(get(f, x.ops[i]));
          std::vector<uint64_t> cps; for (auto &bv : x.byval) { uint64_t src = cv(S, args[bv.first]); uint64_t id = S.mem.alloc(bv.second, OK::Stack, true); memcpyOp(S, addrOf(id), src, bv.second); args[bv.first] = mkv(addrOf(id)); cps.push_back(id); }
          pushCall(S, k, std::move(args)); for (uint64_t id : cps) S.st.back().allocas.push_back(id);
        } else {
          if (!x.callee) { KInst y = x; y.callee = k; y.ext = k->ext; y.intrin = k->intrin; if (!callExt(S, f, y)) break; } else if (!callExt(S, f, x)) break;
          if (x.t0 >= 0) jump(S, x.t0); else f.ip++; }
        break; }
      case Op::LandingPad: {
        uint64_t sel = 0; bool taken = x.nsw; for (auto &o : x.ops) { uint64_t c = cv(S, get(f, o)); if (!c || c == S.exty || c == stdException()) { sel = typeId(c); taken = true; break; } }
        if (!taken) { unwind(S); break; }
        Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(mkv(S.exc)); r.agg->push_back(mkv(sel)); f.regs[x.dst] = r; f.ip++; break; }
      case Op::Resume: unwind(S); break;
      default: { Str s; raw_string_ostream o(s); x.I->print(o); giveUp(S, "instruction:" + o.str()); }
    } }

  void endPath(State &S) {
    paths++; maxPathInstrs = std::max(maxPathInstrs, S.instrs);
    for (auto &l : S.reached) reach[l]++;
    sampleSeen++; size_t slot = samples.size(); if (samples.size() >= nsamples) { slot = rnd() % sampleSeen; if (slot >= nsamples) return; }
    Sample sm; for (unsigned i = 1; i < S.nsym; i++) sm.in.push_back(i < S.model.size() ? S.model[i] : 0);
    for (auto &t : S.trace) sm.trace.push_back(t.v.e ? X.eval(t.v.e, S.model) : t.v.c);
    if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm; }

  bool load(const Str &file) {
    SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("symx", errs()); return false; }
    DL = &M->getDataLayout(); U8 = X.sym(0); return true; }
  // live heap blocks that no global variable of the code under test holds (what a function keeps in a static is not lost)
  std::vector<uint64_t> libGlobals; uint64_t initNext = 0;
  int64_t liveBlocks(State &S) {
    std::set<uint64_t> held; std::vector<uint64_t> todo = libGlobals; int64_t n = 0;
    while (!todo.empty()) { Obj *o = S.mem.get(todo.back()); todo.pop_back(); if (!o) continue;
      for (uint64_t i = 0; i + 8 <= o->size; i += 8) { uint64_t w; memcpy(&w, &o->c[i], 8); uint64_t id = w >> SLOT; if (!id || id >= S.mem.next || held.count(id)) continue; Obj *t = S.mem.get(id); if (!t || t->kind != OK::Heap || t->freed) continue; held.insert(id); todo.push_back(id); if (t->allocKind && id >= initNext) n++; } }
    return S.live - n; }
  void initGlobals() {
    for (auto &g : M->globals()) {
      if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
      uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8; if (g.isDeclaration() && sz < 256) sz = 256; uint64_t id = initMem.alloc(sz, OK::Global, false); gaddr[&g] = addrOf(id); if (!g.isConstant() && !g.isDeclaration() && g.getName().contains("3bnl")) libGlobals.push_back(id); }
    for (auto &F : *M) func(&F);
    for (auto &g : M->globals()) if (gaddr.count(&g) && g.hasInitializer()) { uint64_t id = gaddr[&g] >> SLOT; Obj *o = initMem.wr(id); initGlobal(o, 0, g.getInitializer()); if (g.isConstant()) o->ro = true; } }
  void run(const Str &entry) {
    t0 = now(); initGlobals(); Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
    State *S = new State(); S->mem = initMem; S->model.assign(MAXSYM, 0); S->id = nextState++;
    // global constructors, then the harness, executed in one call sequence
    std::vector<KFunc *> seq;
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> cs; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs_ = cast<ConstantStruct>(ca->getOperand(i)); if (auto *cf = dyn_cast<Function>(cs_->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs_->getOperand(0))->getZExtValue(), cf}); }
      std::stable_sort(cs.begin(), cs.end(), [](const std::pair<uint64_t, Function *> &a, const std::pair<uint64_t, Function *> &b) { return a.first < b.first; }); for (auto &c : cs) seq.push_back(func(c.second)); }
    bool initOk = true;
    for (auto *k : seq) { try { pushCall(*S, k, {}); size_t base = 1; while (S->st.size() >= base) step(*S); } catch (PathEnd &) { initOk = false; S->st.clear(); } }
    if (!initOk) { incomplete["global-constructor"]++; viols.clear(); }
    initNext = S->mem.next; S->instrs = 0; S->live = 0; pushCall(*S, func(F), {}); work.push_back(S);
    while (!work.empty() && !stop) {
      if (now() - t0 > maxTime) { incomplete["time-budget"] += work.size(); break; }
      if (paths >= maxPaths) { incomplete["path-budget"] += work.size(); break; }
      State *s = work.back(); work.pop_back(); 
      try {
        uint64_t cnt = 0; while (!s->st.empty()) { step(*s); if ((++cnt & 0xffff) == 0 && now() - t0 > maxTime) { incomplete["time-budget"]++; throw PathEnd(); } }
        endPath(*s);
      } catch (PathEnd &) { for (auto &l : s->reached) reach[l]++; }
      delete s; }
    if (stop && !work.empty()) incomplete["stopped-after-violations"] += work.size(); }

  static Str js(const Str &s) { Str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char) c; } return r + "\""; }
  static Str hex(const std::vector<uint8_t> &v) { Str r; char b[4]; for (auto x : v) { snprintf(b, 4, "%02x", x); r += b; } return r; }
  void report(std::ostream &o) {
    o << "{\n\"paths\":" << paths << ",\"pruned\":" << pruned << ",\"forks\":" << forks << ",\"instructions\":" << instrs << ",\"branches\":" << branches << ",\"symbolic_branches\":" << symBranches << ",\"asserts_discharged\":" << assertsDischarged << ",\"safety_conditions\":" << memChecks
      << ",\"queries\":" << solver.queries << ",\"solver_calls\":" << solver.z3calls << ",\"sat\":" << solver.sat << ",\"unsat\":" << solver.unsat << ",\"unknown\":" << solver.unknown << ",\"cache_hits\":" << solver.cacheHits << ",\"model_hits\":" << solver.modelHits << ",\"solver_s\":" << solver.time << ",\"max_query_s\":" << solver.maxTime << ",\"wall_s\":" << now() - t0 << ",\"max_symbolic_bytes\":" << maxSyms << ",\"max_path_instructions\":" << maxPathInstrs << ",\n\"incomplete\":{";
    bool first = true; for (auto &p : incomplete) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; } o << "},\n\"reach\":{"; first = true; for (auto &p : reach) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; } o << "},\n\"checks\":{"; first = true; for (auto &p : checks) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
    o << "},\n\"functions\":["; first = true; uint64_t cb = 0, tb = 0; for (auto &p : funcs) { KFunc *k = p.second; if (!k->isTarget || !k->calls) continue; uint64_t c = 0; for (auto &b : k->blocks) c += b.covered; cb += c; tb += k->blocks.size(); o << (first ? "" : ",") << "[" << js(k->pretty) << "," << c << "," << k->blocks.size() << "]"; first = false; }
    o << "],\n\"blocks_covered\":" << cb << ",\"blocks_total\":" << tb << ",\n\"samples\":["; first = true; for (auto &s : samples) { o << (first ? "" : ",") << "{\"in\":\"" << hex(s.in) << "\",\"trace\":["; bool g = true; for (auto t : s.trace) { o << (g ? "" : ",") << "\"" << t << "\""; g = false; } o << "]}"; first = false; }
    o << "],\n\"violations\":["; first = true; for (auto &v : viols) { o << (first ? "" : ",\n") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"stack\":" << js(v.stack) << ",\"input\":\"" << hex(v.input) << "\",\"syms\":["; bool g = true; for (auto &s : v.syms) { o << (g ? "" : ",") << "[" << js(s.first) << "," << s.second << "]"; g = false; } o << "],\"notes\":["; g = true; for (auto &s : v.notes) { o << (g ? "" : ",") << js(s); g = false; } o << "]}"; first = false; }
    o << "]\n}\n"; }
};

// Tags every instruction of the program as written, so that the copies LLVM later speculates, which have lost the tag, can be told apart.
static int tag(const char *in, const char *out) {
  LLVMContext c; SMDiagnostic err; auto M = parseIRFile(in, err, c); if (!M) { err.print("symx", errs()); return 3; }
  for (auto &F : *M) for (auto &I : instructions(F)) if (isa<BinaryOperator>(I)) I.setMetadata("symx.ub", MDNode::get(c, {}));
  std::error_code ec; raw_fd_ostream o(out, ec); if (ec) return 3; WriteBitcodeToFile(*M, o); return 0; }
int main(int argc, char **argv) {
  if (argc == 4 && Str(argv[1]) == "-tag") return tag(argv[2], argv[3]);
  Engine en; Str file, entry, out;
  for (int i = 1; i < argc; i++) { Str a = argv[i]; auto nx = [&]() { return Str(argv[++i]); };
    if (a == "-entry") entry = nx(); else if (a == "-o") out = nx(); else if (a == "-time") en.maxTime = std::stod(nx()); else if (a == "-violtime") en.violTime = std::stod(nx()); else if (a == "-paths") en.maxPaths = std::stoull(nx()); else if (a == "-instr") en.maxInstr = std::stoull(nx());
    else if (a == "-samples") en.nsamples = (unsigned) std::stoul(nx()); else if (a == "-seed") { en.rng ^= std::stoull(nx()) * 0x9E3779B97F4A7C15ULL; if (!en.rng) en.rng = 1; } else if (a == "-maxviol") en.maxViol = (unsigned) std::stoul(nx()); else if (a == "-qtimeout") en.solver.setTimeout((unsigned) std::stoul(nx()));
    else if (a == "-dump") en.solver.dumpDir = nx(); else if (a == "-dumpevery") en.solver.dumpEvery = (unsigned) std::stoul(nx());
    else if (a == "-p") { Str kv = nx(); auto e = kv.find('='); en.params[kv.substr(0, e)] = std::stoull(kv.substr(e + 1)); } else file = a; }
  if (!en.load(file)) return 3; en.unwinding = en.params.count("unwind") && en.params["unwind"];
  en.run(entry);
  if (out.empty()) en.report(std::cout); else { std::ofstream o(out); en.report(o); }
  std::cout.flush(); _exit(0);
}
