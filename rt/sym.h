// Harness interface.  Under the symbolic executor these are intrinsics; natively (rt/native.cpp) they replay one
// concrete assignment of the symbolic inputs, in creation order.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_int(uint64_t nbytes, const char *name) noexcept; // nbytes-wide unsigned input
void sym_fill(void *p, size_t n, const char *name) noexcept;  // n input bytes
void sym_assume(bool c) noexcept;
void sym_check(bool c, const char *label) noexcept;           // must hold for all inputs
void sym_reach(const char *label) noexcept;                   // vacuity witness
void sym_note(const char *s) noexcept;                        // appears in counterexamples
void sym_trace(uint64_t v) noexcept;                          // observable output; compared with the native build
uint64_t sym_concrete(uint64_t v) noexcept;                   // case split
uint64_t sym_param(const char *name, uint64_t def) noexcept;  // bound chosen by the driver
uint64_t sym_live() noexcept;                                 // live heap blocks
void sym_poison(void *p, size_t n) noexcept;                  // mark as uninitialised
bool sym_is_symbolic(uint64_t v) noexcept;
bool sym_eqmem(const void *a, const void *b, size_t n) noexcept;
}
