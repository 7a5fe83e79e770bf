// Entry points of the stream ciphers.
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>

using namespace milo;

#define CIPHER(name, T)                                                                                                                  \
    using name##_t = T;                                                                                                                  \
    extern "C" {                                                                                                                         \
    void name##_construct(void* p) { new (p) name##_t; }                                                                                 \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                                                                 \
    void name##_init(name##_t* h, const uint8_t* k, size_t kn, const uint8_t* i, size_t in) { h->initialize(k, kn, i, in); }             \
    void name##_initc(name##_t* h, const char* k, size_t kn, const char* i, size_t in) { h->initialize(k, kn, i, in); }                  \
    size_t name##_enc(name##_t* h, const uint8_t* p, size_t n, uint8_t* d) { return h->encrypt(p, n, d); }                               \
    size_t name##_encc(name##_t* h, const char* p, size_t n, char* d) { return h->encrypt(p, n, d); }                                    \
    size_t name##_dec(name##_t* h, const uint8_t* p, size_t n, uint8_t* d) { return h->decrypt(p, n, d); }                               \
    size_t name##_decc(name##_t* h, const char* p, size_t n, char* d) { return h->decrypt(p, n, d); }                                    \
    size_t name##_encsize(name##_t* h, const uint8_t* p, size_t n) { return h->encrypt_size(p, n); }                                     \
    size_t name##_decsize(name##_t* h, const uint8_t* p, size_t n) { return h->decrypt_size(p, n); }                                     \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                                                        \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                                                          \
    extern const size_t name##_info[];                                                                                                   \
    const size_t name##_info[] = {sizeof(name##_t), name##_t::key_size, name##_t::iv_size};                                              \
    }

CIPHER(chacha20, primitive::cipher::chacha_20<>)

using sw = primitive::detail::cipher_chacha_impl_sw_ietf;

extern "C" {
size_t blk_transform(size_t n, const uint32_t* s, uint8_t* d, const uint8_t* p) { return sw::transform(n, s, d, p); }
size_t blk_generate(size_t n, const uint32_t* s, uint8_t* d) { return sw::generate(n, s, d); }
}

#define HW(name, T)                                                                                                                      \
    extern "C" {                                                                                                                         \
    size_t name##_transform(size_t n, const uint32_t* s, uint8_t* d, const uint8_t* p) { return primitive::detail::T::transform(n, s, d, p); } \
    size_t name##_generate(size_t n, const uint32_t* s, uint8_t* d) { return primitive::detail::T::generate(n, s, d); }                  \
    size_t name##c_transform(size_t n, const uint32_t* s, char* d, const char* p) { return primitive::detail::T::transform(n, s, d, p); } \
    size_t name##c_generate(size_t n, const uint32_t* s, char* d) { return primitive::detail::T::generate(n, s, d); }                    \
    extern const size_t name##_ratio;                                                                                                    \
    const size_t name##_ratio = primitive::detail::T::block_ratio;                                                                       \
    }
HW(ssse_3, cipher_chacha_impl_hw_x86_64_ssse_3_ietf)
HW(avx_2, cipher_chacha_impl_hw_x86_64_avx_2_ietf)
