// Reading digests from objects in any state: default and configured digest sizes.
#include <milo/internal.h>
#include "stub.h"
#include <milo/option.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/aead/chacha.h>

using namespace milo;
#define READ(name, ...)                                                                              \
    using name##_t = __VA_ARGS__;                                                                    \
    extern "C" {                                                                                     \
    extern const size_t name##_info[];                                                               \
    const size_t name##_info[] = {sizeof(name##_t), name##_t::digest_size};                          \
    size_t name##_u(const name##_t* h, uint8_t* p, size_t n) { return h->digest(p, n); }             \
    size_t name##_c(const name##_t* h, char* p, size_t n) { return h->digest(p, n); }                \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                   \
    void name##_cons(void* d, const name##_t* s) { new (d) name##_t(*s); }                          \
    void name##_new(void* d) { new (d) name##_t; }                                                  \
    size_t name##_d(const name##_t* h, uint8_t* p) { return h->digest(p); }                          \
    }
#define FAMILY(name, T, D)                                                                           \
    READ(name, T<>)                                                                                  \
    READ(name##_0, T<option::digest_size<0>>)                                                        \
    READ(name##_1, T<option::digest_size<1>>)                                                        \
    READ(name##_odd, T<option::digest_size<D - 5>>)                                                  \
    READ(name##_word, T<option::digest_size<8>>)                                                     \
    READ(name##_same, T<option::digest_size<D>>)                                                     \
    READ(name##_more, T<option::digest_size<D + 4>>)                                                 \
    READ(name##_much, T<option::digest_size<300>>)
namespace ph = primitive::hash;
FAMILY(sha1, ph::sha_1_160, 20)
FAMILY(sha224, ph::sha_2_224, 28)
FAMILY(sha256, ph::sha_2_256, 32)
FAMILY(sha384, ph::sha_2_384, 48)
FAMILY(sha512, ph::sha_2_512, 64)
FAMILY(sha512_224, ph::sha_2_512_224, 28)
FAMILY(sha512_256, ph::sha_2_512_256, 32)
FAMILY(poly, primitive::mac::poly_1305, 16)
template<typename... T> using hm = primitive::mac::hmac<vhash<64, 32>, T...>;
FAMILY(hmac, hm, 32)
template<typename... T> using rhm = primitive::mac::hmac<ph::sha_2_384<>, T...>;
FAMILY(rhmac, rhm, 48)
