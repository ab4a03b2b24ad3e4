// Stand-in for <xxhash.h> in the symbolic build (see rt/xxh.cpp); the native build uses the real header.
#pragma once
#include <cstddef>
#include <cstdint>
typedef uint64_t XXH64_hash_t;
extern "C" XXH64_hash_t XXH64(const void *input, size_t length, XXH64_hash_t seed) noexcept;
