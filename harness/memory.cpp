// Memory, byte order and bit helpers, for each width in use.
#include <milo/internal.h>
#include <milo/container.h>

#ifndef API
#define API extern "C" __attribute__((noinline))
#endif
namespace mi = milo::internal;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using s8 = int8_t; using s16 = int16_t; using s32 = int32_t; using s64 = int64_t; using ch = char;

#define ACC(V, P) \
    API V load_##V##_##P(const P* p, size_t o) { return mi::memory_load<V>(p, o); } \
    API V load_be_##V##_##P(const P* p, size_t o) { return mi::memory_load_be<V>(p, o); } \
    API V load_le_##V##_##P(const P* p, size_t o) { return mi::memory_load_le<V>(p, o); } \
    API V loadn_##V##_##P(const P* p, size_t o, size_t n) { return mi::memory_load<V>(p, o, n); } \
    API V loadn_be_##V##_##P(const P* p, size_t o, size_t n) { return mi::memory_load_be<V>(p, o, n); } \
    API V loadn_le_##V##_##P(const P* p, size_t o, size_t n) { return mi::memory_load_le<V>(p, o, n); } \
    API void stor_##V##_##P(P* p, size_t o, V v) { mi::memory_stor<V>(p, o, v); } \
    API void stor_be_##V##_##P(P* p, size_t o, V v) { mi::memory_stor_be<V>(p, o, v); } \
    API void stor_le_##V##_##P(P* p, size_t o, V v) { mi::memory_stor_le<V>(p, o, v); } \
    API void storn_##V##_##P(P* p, size_t o, V v, size_t n) { mi::memory_stor<V>(p, o, v, n); } \
    API void storn_be_##V##_##P(P* p, size_t o, V v, size_t n) { mi::memory_stor_be<V>(p, o, v, n); } \
    API void storn_le_##V##_##P(P* p, size_t o, V v, size_t n) { mi::memory_stor_le<V>(p, o, v, n); }
#define PAIRS(M) M(u8, u8) M(u16, u8) M(u32, u8) M(u64, u8) M(u8, ch) M(u16, ch) M(u32, ch) M(u64, ch) \
    M(u8, u16) M(u16, u16) M(u32, u16) M(u64, u16) M(u8, u32) M(u16, u32) M(u32, u32) M(u64, u32) \
    M(u8, u64) M(u16, u64) M(u32, u64) M(u64, u64) M(s32, u8) M(s16, s8) M(s8, s32) M(s64, u32) M(s32, u64)
PAIRS(ACC)

#define COPY(D, S) API void copy_##D##_##S(D* d, const S* s, size_t n) { mi::memory_copy(d, s, n); } \
    API void init_##D##_##S(D* d, size_t dn, const S* s, size_t sn) { mi::memory_init(d, dn, s, sn); } \
    API void init_be_##D##_##S(D* d, size_t dn, const S* s, size_t sn) { mi::memory_init_be(d, dn, s, sn); } \
    API void init_le_##D##_##S(D* d, size_t dn, const S* s, size_t sn) { mi::memory_init_le(d, dn, s, sn); } \
    API bool equal_##D##_##S(const D* d, const S* s, size_t n) { return mi::memory_equal(d, s, n); } \
    API bool match_##D##_##S(const D* d, const S* s, size_t n) { return mi::memory_match(d, s, n); } \
    API void xor_##D##_##S(D* d, const S* s, size_t n) { mi::memory_xor(d, d, s, n); } \
    API void xor3_##D##_##S(D* d, const D* a, const S* s, size_t n) { mi::memory_xor(d, a, s, n); }
#define COPIES(M) M(u8, u8) M(u8, ch) M(ch, u8) M(ch, ch) M(u32, u8) M(u8, u32) M(u64, u8) M(u32, ch) M(u8, u64) M(u32, u64) M(u64, u32) M(u16, u8)
COPIES(COPY)

#define COPYE(D, S) API void copy_be_##D##_##S(D* d, const S* s, size_t n) { mi::memory_copy_be(d, s, n); } \
    API void copy_le_##D##_##S(D* d, const S* s, size_t n) { mi::memory_copy_le(d, s, n); }
#define COPIESE(M) M(u8, u8) M(u8, u16) M(u8, u32) M(u8, u64) M(ch, u32) M(ch, u64)
COPIESE(COPYE)

#define FILL(P) API void set_##P(P* p, u8 v, size_t n) { mi::memory_set(p, v, n); } \
    API void zero_##P(P* p, size_t n) { mi::memory_zero(p, n); } \
    API void erase_##P(P* p, size_t n) { mi::memory_erase(p, n); } \
    API void erase1_##P(P* p) { mi::memory_erase(*p); } \
    API void zero5_##P(P (*p)[5]) { mi::memory_zero(*p); } \
    API void erase5_##P(P (*p)[5]) { mi::memory_erase(*p); } \
    API void init5_##P(P (*p)[5], const u8* s, size_t n) { mi::memory_init(*p, s, n); } \
    API void init5_be_##P(P (*p)[5], const u8* s, size_t n) { mi::memory_init_be(*p, s, n); } \
    API void init5_le_##P(P (*p)[5], const u8* s, size_t n) { mi::memory_init_le(*p, s, n); }
#define FILLS(M) M(u8) M(ch) M(u16) M(u32) M(u64)
FILLS(FILL)

#define ENDIAN(V) API V bigof_##V(V v) { return mi::endian_bigof(v); } \
    API V littleof_##V(V v) { return mi::endian_littleof(v); } \
    API V swap_##V(V v) { return mi::endian_swap(v); }
#define ENDIANS(M) M(u8) M(u16) M(u32) M(u64) M(s8) M(s16) M(s32) M(s64)
ENDIANS(ENDIAN)
#define BITS(V) API V swapsw_##V(V v) { return mi::endian_swap_sw(v); } \
    API V swapbi_##V(V v) { return mi::endian_swap_bi(v); } \
    API V rotl_##V(V v, size_t b) { return mi::bit_rotl(v, b); } \
    API V rotr_##V(V v, size_t b) { return mi::bit_rotr(v, b); }
#define BITSS(M) M(u8) M(u16) M(u32) M(u64)
BITSS(BITS)
API u64 min_u64(u64 a, u64 b) { return mi::min(a, b); }
API u64 max_u64(u64 a, u64 b) { return mi::max(a, b); }
API u64 resize_static(std::array<u8, 24>* c, size_t n) { return mi::resize(*c, n); }
API bool equal_container(const u8* a, size_t n, const u8* b, size_t m) { return mi::memory_equal(std::span<const u8>(a, n), std::span<const u8>(b, m)); }
API bool match_container(const u8* a, size_t n, const u8* b, size_t m) { return mi::memory_match(std::span<const u8>(a, n), std::span<const u8>(b, m)); }
API bool match_container_32(const u32* a, size_t n, const u8* b, size_t m) { return mi::memory_match(std::span<const u32>(a, n), std::span<const u8>(b, m)); }
