// HMAC over an abstract hash, HKDF and PBKDF2 over an abstract PRF.
#include <milo/internal.h>
#include "stub.h"
#include <milo/option.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>

using namespace milo;

#define MAC(name, ...)                                                                              \
    using name##_t = __VA_ARGS__;                                                                   \
    extern "C" {                                                                                    \
    void name##_construct(void* p) { new (p) name##_t; }                                            \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                            \
    void name##_init(name##_t* h, const uint8_t* k, size_t n) { h->initialize(k, n); }              \
    void name##_initc(name##_t* h, const char* k, size_t n) { h->initialize(k, n); }                \
    void name##_update(name##_t* h, const uint8_t* p, size_t n) { h->update(p, n); }                \
    void name##_updatec(name##_t* h, const char* p, size_t n) { h->update(p, n); }                  \
    void name##_final(name##_t* h) { h->finalize(); }                                               \
    size_t name##_digest(const name##_t* h, uint8_t* p, size_t n) { return h->digest(p, n); }       \
    size_t name##_digestd(const name##_t* h, uint8_t* p) { return h->digest(p); }                   \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                   \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                     \
    extern const size_t name##_info[];                                                              \
    const size_t name##_info[] = {sizeof(name##_t), name##_t::key_size, name##_t::digest_size};     \
    }

MAC(hmac64_20, primitive::mac::hmac<vhash<64, 20>>)
MAC(hmac64_28, primitive::mac::hmac<vhash<64, 28>>)
MAC(hmac64_32, primitive::mac::hmac<vhash<64, 32>>)
MAC(hmac128_28, primitive::mac::hmac<vhash<128, 28>>)
MAC(hmac128_32, primitive::mac::hmac<vhash<128, 32>>)
MAC(hmac128_48, primitive::mac::hmac<vhash<128, 48>>)
MAC(hmac128_64, primitive::mac::hmac<vhash<128, 64>>)
MAC(hmac64_32s, primitive::mac::hmac<vhash<64, 32>, option::digest_size<12>>)

#define HKDF(name, ...)                                                                                                                  \
    using name##_t = __VA_ARGS__;                                                                                                        \
    extern "C" {                                                                                                                         \
    void name##_construct(void* p) { new (p) name##_t; }                                                                                 \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                                                                 \
    void name##_init(name##_t* h, const uint8_t* k, size_t kn, const uint8_t* s, size_t sn, const uint8_t* i, size_t in) { h->initialize(k, kn, s, sn, i, in); } \
    void name##_initc(name##_t* h, const char* k, size_t kn, const char* s, size_t sn, const char* i, size_t in) { h->initialize(k, kn, s, sn, i, in); } \
    size_t name##_derive(name##_t* h, uint8_t* p, size_t n) { return h->derive(p, n); }                                                  \
    size_t name##_derivec(name##_t* h, char* p, size_t n) { return h->derive(p, n); }                                                    \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                                                        \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                                                          \
    extern const size_t name##_info[];                                                                                                   \
    const size_t name##_info[] = {sizeof(name##_t)};                                                                                     \
    }

HKDF(hkdf20, primitive::kdf::hkdf<vmac<20>>)
HKDF(hkdf28, primitive::kdf::hkdf<vmac<28>>)
HKDF(hkdf32, primitive::kdf::hkdf<vmac<32>>)
HKDF(hkdf48, primitive::kdf::hkdf<vmac<48>>)
HKDF(hkdf64, primitive::kdf::hkdf<vmac<64>>)

#define PBKDF(name, ...)                                                                                                                 \
    using name##_t = __VA_ARGS__;                                                                                                        \
    extern "C" {                                                                                                                         \
    void name##_construct(void* p) { new (p) name##_t; }                                                                                 \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                                                                 \
    void name##_init(name##_t* h, const uint8_t* k, size_t kn, const uint8_t* s, size_t sn, uint32_t c) { h->initialize(k, kn, s, sn, c); } \
    void name##_initc(name##_t* h, const char* k, size_t kn, const char* s, size_t sn, uint32_t c) { h->initialize(k, kn, s, sn, c); }   \
    size_t name##_derive(name##_t* h, uint8_t* p, size_t n) { return h->derive(p, n); }                                                  \
    size_t name##_derivec(name##_t* h, char* p, size_t n) { return h->derive(p, n); }                                                    \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                                                        \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                                                          \
    extern const size_t name##_info[];                                                                                                   \
    const size_t name##_info[] = {sizeof(name##_t)};                                                                                     \
    }

PBKDF(pbkdf20, primitive::kdf::pbkdf_2<vmac<20>>)
PBKDF(pbkdf28, primitive::kdf::pbkdf_2<vmac<28>>)
PBKDF(pbkdf32, primitive::kdf::pbkdf_2<vmac<32>>)
PBKDF(pbkdf48, primitive::kdf::pbkdf_2<vmac<48>>)
PBKDF(pbkdf64, primitive::kdf::pbkdf_2<vmac<64>>)
