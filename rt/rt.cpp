// Library code linked into the symbolic module: bodies of the libstdc++/libc functions that are out of line in the
// shared libraries.  Written in plain C++ so that the executor runs them like any other code.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
void *sym_memchr(const void *p, int c, size_t n) asm("memchr");
void *sym_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *) p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char) c) return (void *) (q + i); return nullptr; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
}

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept { this->_M_next = pos; this->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base *const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// Ordered containers: an unbalanced binary search tree has the same observable behaviour as the red-black tree.
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && x->_M_parent->_M_color != _S_red) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
  _Rb_tree_node_base *succ = z == rm ? nullptr : inc(z), *pred = z == lm ? nullptr : dec(z);
  if (z == lm) lm = succ ? succ : &h;
  if (z == rm) rm = pred ? pred : &h;
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
}

// Unordered containers: growth policy and hash of libstdc++, so that iteration order is that of the native build.
namespace std {
namespace __detail {
static const unsigned long primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { // maximum load factor 1
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = fast[n]; return fast[n]; }
  for (unsigned long p : primes) if (p >= n) { _M_next_resize = p; return p; } __builtin_trap(); }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t m = elt + ins, z = _M_next_resize ? 0 : 11; if (m < z) m = z; if (m >= bkt) { size_t g = m + 1, h = bkt * 2; return {true, _M_next_bkt(g < h ? h : g)}; } _M_next_resize = bkt; }
  return {false, 0}; }
}
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const size_t mul = (0xc6a4a793UL << 32) + 0x5bd1e995UL; auto mix = [](size_t v) { return v ^ (v >> 47); }; const unsigned char *p = (const unsigned char *) ptr; size_t hash = seed ^ (len * mul);
  for (; len >= 8; len -= 8, p += 8) { size_t d = 0; for (int i = 7; i >= 0; i--) d = (d << 8) + p[i]; hash ^= mix(d * mul) * mul; hash *= mul; }
  if (len) { size_t d = 0; for (int i = (int) len - 1; i >= 0; i--) d = (d << 8) + p[i]; hash ^= d; hash *= mul; }
  hash = mix(hash) * mul; return mix(hash); }
}
extern "C" { static int errno_; int *sym_errno() asm("__errno_location"); int *sym_errno() { return &errno_; } }
