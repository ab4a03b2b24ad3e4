// Native counterpart of the harness interface: replays recorded inputs against the natively compiled code.
// usage: prog [-p k=v]... FILE|-     (FILE: one hex string per line; each line is one run)
// Output per run: "RUN n", "T v" per trace item, "CHECK label" on failed checks, "REACH label", "END", or "PRUNED".
#define SYM_NATIVE
#define NO_LOGGER
#include "harness.h"
#include <iterator>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#if defined(__has_include) && __has_include(<valgrind/memcheck.h>) && defined(USE_VALGRIND)
#include <valgrind/memcheck.h>
#define DEFCHECK(p, n) VALGRIND_CHECK_MEM_IS_DEFINED(p, n)
#else
#define DEFCHECK(p, n) 0
#endif
static std::vector<uint8_t> input; static size_t pos; static std::map<std::string, uint64_t> params; static bool failed;
static void line(const std::string &s) { std::string t = s + "\n"; size_t n = 0; while (n < t.size()) { ssize_t k = write(1, t.data() + n, t.size() - n); if (k <= 0) break; n += (size_t) k; } }
static uint8_t next() { return pos < input.size() ? input[pos++] : 0; }
extern "C" {
uint64_t sym_int(uint64_t n, const char *) noexcept { uint64_t v = 0; for (uint64_t i = 0; i < n; i++) v |= (uint64_t) next() << (8 * i); return v; }
void sym_fill(void *p, size_t n, const char *) noexcept { for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = next(); }
void sym_assume(bool c) noexcept { if (!c) { line("PRUNED"); _exit(0); } }
void sym_check(bool c, const char *l) noexcept { if (!c) { line(std::string("CHECK ") + l); failed = true; } }
void sym_reach(const char *l) noexcept { line(std::string("REACH ") + l); }
void sym_note(const char *) noexcept {}
void sym_trace(uint64_t v) noexcept { if (DEFCHECK(&v, sizeof v)) line("UNDEFINED trace"); line("T " + std::to_string(v)); }
uint64_t sym_concrete(uint64_t v) noexcept { return v; }
uint64_t sym_param(const char *n, uint64_t d) noexcept { auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t sym_live() noexcept;
void sym_poison(void *, size_t) noexcept {}
bool sym_is_symbolic(uint64_t) noexcept { return false; }
bool sym_eqmem(const void *a, const void *b, size_t n) noexcept { return n == 0 || memcmp(a, b, n) == 0; }
}
// live heap blocks that no global variable of the code under test holds (what a function keeps in a static is not lost)
#include <elf.h>
#include <link.h>
template <typename T> struct raw { using value_type = T; raw() = default; template <typename U> raw(const raw<U> &) {} T *allocate(size_t n) { return (T *) malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); } template <typename U> bool operator==(const raw<U> &) const { return true; } template <typename U> bool operator!=(const raw<U> &) const { return false; } };
using blocks_t = std::map<uintptr_t, std::pair<size_t, bool>, std::less<uintptr_t>, raw<std::pair<const uintptr_t, std::pair<size_t, bool>>>>;
static bool counting; static blocks_t &blocks() { static blocks_t *b = new (malloc(sizeof(blocks_t))) blocks_t; return *b; }
static std::vector<std::pair<uintptr_t, size_t>> roots;
static void find_roots() {
  std::ifstream f("/proc/self/exe", std::ios::binary); std::vector<char> d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); auto *eh = (Elf64_Ehdr *) d.data(); auto *sh = (Elf64_Shdr *) (d.data() + eh->e_shoff); uintptr_t base = 0; dl_iterate_phdr([](dl_phdr_info *i, size_t, void *p) { *(uintptr_t *) p = i->dlpi_addr; return 1; }, &base);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { const char *names = d.data() + sh[sh[i].sh_link].sh_offset; auto *s = (Elf64_Sym *) (d.data() + sh[i].sh_offset); for (size_t k = 0; k < sh[i].sh_size / sizeof(*s); k++) if (ELF64_ST_TYPE(s[k].st_info) == STT_OBJECT && s[k].st_shndx && s[k].st_shndx < eh->e_shnum && (sh[s[k].st_shndx].sh_flags & SHF_WRITE) && strstr(names + s[k].st_name, "3bnl")) roots.push_back({base + s[k].st_value, s[k].st_size}); }
}
__attribute__((no_sanitize("address"))) uint64_t sym_live() noexcept {
  blocks_t &b = blocks(); uint64_t n = 0; std::vector<std::pair<uintptr_t, size_t>, raw<std::pair<uintptr_t, size_t>>> todo(roots.begin(), roots.end()); for (auto &e : b) e.second.second = false;
  while (!todo.empty()) { auto r = todo.back(); todo.pop_back(); for (size_t i = 0; i + 8 <= r.second; i += 8) { uintptr_t w = *(volatile uintptr_t *) (r.first + i); auto it = b.upper_bound(w); if (it == b.begin()) continue; --it; if (w - it->first > it->second.first || it->second.second) continue; it->second.second = true; todo.push_back({it->first, it->second.first}); } }
  for (auto &e : b) n += !e.second.second;
  return n; }
#ifndef NO_COUNT
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (counting) blocks()[(uintptr_t) p] = {n, false}; return p; }
static void drop(void *p) { if (p && counting) blocks().erase((uintptr_t) p); free(p); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
#endif
static std::map<std::string, void (*)()> &entries() { static std::map<std::string, void (*)()> m; return m; }
harness_reg::harness_reg(const char *n, void (*f)()) { entries()[n] = f; }
static void (*harness_entry)();
int main(int argc, char **argv) {
  std::string file; bool single = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-p") { std::string kv = argv[++i]; auto e = kv.find('='); params[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, nullptr, 10); } else if (a == "-entry") harness_entry = entries()[argv[++i]]; else if (a == "-single") single = true; else file = a; }
  std::ifstream f(file); std::string l; unsigned n = 0; find_roots(); std::vector<std::string> lines; while (std::getline(f, l)) lines.push_back(l);
  for (auto &hx : lines) {
    auto prep = [&] { input.clear(); pos = 0; for (size_t i = 0; i + 1 < hx.size(); i += 2) input.push_back((uint8_t) strtoul(hx.substr(i, 2).c_str(), nullptr, 16)); };
    if (single) { prep(); line("RUN 0"); counting = true; harness_entry(); line("END"); return failed ? 1 : 0; }
    std::cout.flush(); line("RUN " + std::to_string(n++));
    pid_t p = fork();
    if (!p) { alarm(20); prep(); counting = true; harness_entry(); line("END"); _exit(0); }
    int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) line("CRASH signal " + std::to_string(WTERMSIG(st))); else if (WEXITSTATUS(st)) line("CRASH exit " + std::to_string(WEXITSTATUS(st)));
  }
  return 0; }
