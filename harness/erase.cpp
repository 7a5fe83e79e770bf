// What is left in the storage of objects after their end of life.
#include <milo/internal.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>

using namespace milo;
using u8 = uint8_t;

template<typename T>
void done(T& t)
{
    if constexpr (requires { t.finalize(); }) t.finalize();
}

template<typename T>
void use_hash(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t, int fin, u8* out)
{
    t.initialize();
    t.update(k, kn);
    t.update(p, n);
    if (fin) done(t), t.digest(out);
}

template<typename T>
void use_mac(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t, int fin, u8* out)
{
    t.initialize(k, kn);
    t.update(p, n);
    if (fin) done(t), t.digest(out);
}

template<typename T>
void use_cipher(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t, int fin, u8* out)
{
    u8 iv[12]{};
    t.initialize(k, kn, iv, sizeof(iv));
    if (fin) t.decrypt(p, n, out); else t.encrypt(p, n, out);
}

template<typename T>
void use_aead(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t m, int fin, u8* out)
{
    u8 iv[12]{};
    t.initialize(k, kn, iv, sizeof(iv));
    t.aad(p, m);
    if constexpr (requires { t.aadover(); }) t.aadover();
    if (n) t.encrypt(p, n, out);
    if (fin) done(t), t.digest(out);
}

template<typename T>
void use_hkdf(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t m, int, u8* out)
{
    t.initialize(k, kn, p, m, p, m);
    t.derive(out, n);
}

template<typename T>
void use_pbkdf(T& t, const u8* k, size_t kn, const u8* p, size_t n, size_t m, int, u8* out)
{
    t.initialize(k, kn, p, m, 2);
    t.derive(out, n);
}

#define TYPE(name, kind, ...)                                                                                                            \
    using name##_t = __VA_ARGS__;                                                                                                        \
    extern "C" {                                                                                                                         \
    extern const size_t name##_info[];                                                                                                   \
    const size_t name##_info[] = {sizeof(name##_t)};                                                                                     \
    void name##_use(name##_t* h, const u8* k, size_t kn, const u8* p, size_t n, size_t m, int fin, u8* out) { new (h) name##_t; use_##kind(*h, k, kn, p, n, m, fin, out); } \
    void name##_end(name##_t* h) { h->~name##_t(); }                                                                                     \
    void name##_delete(name##_t* h) { delete h; }                                                                                        \
    void name##_local(const name##_t* s, void (*f)(void*)) { name##_t t(*s); f(&t); }                                                    \
    }

namespace P = primitive;
TYPE(sha1, hash, P::hash::sha_1_160<>)
TYPE(sha224, hash, P::hash::sha_2_224<>)
TYPE(sha256, hash, P::hash::sha_2_256<>)
TYPE(sha384, hash, P::hash::sha_2_384<>)
TYPE(sha512, hash, P::hash::sha_2_512<>)
TYPE(sha512_224, hash, P::hash::sha_2_512_224<>)
TYPE(sha512_256, hash, P::hash::sha_2_512_256<>)
TYPE(poly, mac, P::mac::poly_1305<>)
TYPE(hmac1, mac, P::mac::hmac<P::hash::sha_1_160<>>)
TYPE(hmac256, mac, P::mac::hmac<P::hash::sha_2_256<>>)
TYPE(hmac512, mac, P::mac::hmac<P::hash::sha_2_512<>>)
TYPE(chacha, cipher, P::cipher::chacha_20<>)
TYPE(aead, aead, P::aead::chacha_20_poly_1305<>)
TYPE(hkdf, hkdf, P::kdf::hkdf<P::mac::hmac<P::hash::sha_2_256<>>>)
TYPE(pbkdf, pbkdf, P::kdf::pbkdf_2<P::mac::hmac<P::hash::sha_2_256<>>>)
TYPE(api_sha256, hash, P::hash::apie<P::hash::sha_2_256<>>)
TYPE(api_poly, mac, P::mac::apie<P::mac::poly_1305<>>)
TYPE(api_hmac, mac, P::mac::apie<P::mac::hmac<P::hash::sha_2_256<>>>)
TYPE(api_chacha, cipher, P::cipher::apie<P::cipher::chacha_20<>>)
TYPE(api_aead, aead, P::aead::apie<P::aead::chacha_20_poly_1305<>>)
TYPE(api_hkdf, hkdf, P::kdf::apie<P::kdf::hkdf<P::mac::hmac<P::hash::sha_2_256<>>>>)
TYPE(api_pbkdf, pbkdf, P::kdf::apie<P::kdf::pbkdf_2<P::mac::hmac<P::hash::sha_2_256<>>>>)
#undef TYPE
