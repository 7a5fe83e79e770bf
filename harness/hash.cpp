// Entry points of the hash primitives for symbolic execution.
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>

using namespace milo;

#define HASH(name, T)                                                                               \
    using name##_t = T;                                                                             \
    extern "C" {                                                                                    \
    void name##_construct(void* p) { new (p) name##_t; }                                            \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                            \
    void name##_init(name##_t* h) { h->initialize(); }                                              \
    void name##_update(name##_t* h, const uint8_t* p, size_t n) { h->update(p, n); }                \
    void name##_updatec(name##_t* h, const char* p, size_t n) { h->update(p, n); }                  \
    void name##_final(name##_t* h) { h->finalize(); }                                               \
    size_t name##_digest(const name##_t* h, uint8_t* p, size_t n) { return h->digest(p, n); }       \
    size_t name##_digestd(const name##_t* h, uint8_t* p) { return h->digest(p); }                   \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                   \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                     \
    void name##_cons_move(void* d, name##_t* s) { new (d) name##_t(static_cast<name##_t&&>(*s)); }  \
    extern const size_t name##_info[];                                                              \
    const size_t name##_info[] = {sizeof(name##_t), name##_t::block_size, name##_t::digest_size};   \
    }

HASH(sha1, primitive::hash::sha_1_160<>)
HASH(sha224, primitive::hash::sha_2_224<>)
HASH(sha256, primitive::hash::sha_2_256<>)
HASH(sha384, primitive::hash::sha_2_384<>)
HASH(sha512, primitive::hash::sha_2_512<>)
HASH(sha512_224, primitive::hash::sha_2_512_224<>)
HASH(sha512_256, primitive::hash::sha_2_512_256<>)

// the block functions, in the instantiations both update() overloads reach
extern "C" {
void blk_sha1(size_t n, uint32_t* s, const uint8_t* p) { primitive::detail::hash_sha_1_160_impl_sw::blocks(n, s, p); }
void blk_sha256(size_t n, uint32_t* s, const uint8_t* p) { primitive::detail::hash_sha_2_256_impl_sw::blocks(n, s, p); }
void blk_sha512(size_t n, uint64_t* s, const uint8_t* p) { primitive::detail::hash_sha_2_512_impl_sw::blocks(n, s, p); }
}

// the hardware block functions
extern "C" {
void ni_sha1(size_t n, uint32_t* s, const uint8_t* p) { primitive::detail::hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, s, p); }
void ni_sha256(size_t n, uint32_t* s, const uint8_t* p) { primitive::detail::hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, s, p); }
void nic_sha1(size_t n, uint32_t* s, const char* p) { primitive::detail::hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, s, p); }
void nic_sha256(size_t n, uint32_t* s, const char* p) { primitive::detail::hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, s, p); }
}
