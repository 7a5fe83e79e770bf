// ChaCha20-Poly1305 composition over a stand-in cipher and a stand-in MAC.
#include <milo/internal.h>
#include "stub.h"
#include <milo/option.h>
#include <milo/container.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>

using namespace milo;
using raw_t = primitive::detail::aead_chacha_20_poly_1305<vcipher, vmac<16, 32>>;
using apie_t = primitive::aead::apie<raw_t>;
using view = container::view_dynamic<const uint8_t>;
using u8 = uint8_t;

extern "C" {
extern const size_t raw_info[], apie_info[];
const size_t raw_info[] = {sizeof(raw_t), raw_t::key_size, raw_t::iv_size, raw_t::digest_size};
const size_t apie_info[] = {sizeof(apie_t), apie_t::key_size, apie_t::iv_size, apie_t::digest_size};

void raw_construct(void* p) { new (p) raw_t; }
void raw_init(raw_t* h, const u8* k, size_t kn, const u8* i, size_t in) { h->initialize(k, kn, i, in); }
void raw_initc(raw_t* h, const char* k, size_t kn, const char* i, size_t in) { h->initialize(k, kn, i, in); }
void raw_aad(raw_t* h, const u8* p, size_t n) { h->aad(p, n); }
void raw_aadc(raw_t* h, const char* p, size_t n) { h->aad(p, n); }
void raw_aadover(raw_t* h) { h->aadover(); }
size_t raw_encrypt(raw_t* h, const u8* p, size_t n, u8* d) { return h->encrypt(p, n, d); }
size_t raw_decrypt(raw_t* h, const u8* p, size_t n, u8* d) { return h->decrypt(p, n, d); }
size_t raw_encryptc(raw_t* h, const char* p, size_t n, char* d) { return h->encrypt(p, n, d); }
size_t raw_decryptc(raw_t* h, const char* p, size_t n, char* d) { return h->decrypt(p, n, d); }
size_t raw_encrypt_size(raw_t* h, const u8* p, size_t n) { return h->encrypt_size(p, n); }
size_t raw_decrypt_size(raw_t* h, const u8* p, size_t n) { return h->decrypt_size(p, n); }
void raw_final(raw_t* h) { h->finalize(); }
size_t raw_digest(const raw_t* h, u8* p, size_t n) { return h->digest(p, n); }
void raw_copy(raw_t* d, const raw_t* s) { *d = *s; }
void raw_cons_copy(void* d, const raw_t* s) { new (d) raw_t(*s); }

void apie_construct(void* p) { new (p) apie_t; }
void apie_init(apie_t* h, const u8* k, size_t kn, const u8* i, size_t in) { h->initialize(k, kn, i, in); }
void apie_initc(apie_t* h, const char* k, size_t kn, const char* i, size_t in) { h->initialize(k, kn, i, in); }
void apie_cons_init(void* h, const u8* k, size_t kn, const u8* i, size_t in) { new (h) apie_t(k, kn, i, in); }
void apie_aad(apie_t* h, const u8* p, size_t n) { h->aad(p, n); }
void apie_aadc(apie_t* h, const char* p, size_t n) { h->aad(view((const u8*) p, n)); }
size_t apie_encrypt(apie_t* h, const u8* p, size_t n, u8* d) { return h->encrypt(p, n, d); }
size_t apie_decrypt(apie_t* h, const u8* p, size_t n, u8* d) { return h->decrypt(p, n, d); }
size_t apie_encryptc(apie_t* h, const char* p, size_t n, char* d) { return h->encrypt(p, n, d); }
size_t apie_decryptc(apie_t* h, const char* p, size_t n, char* d) { return h->decrypt(p, n, d); }
size_t apie_encrypt_size(apie_t* h, const u8* p, size_t n) { return h->encrypt_size(p, n); }
size_t apie_decrypt_size(apie_t* h, const u8* p, size_t n) { return h->decrypt_size(p, n); }
size_t apie_digest(apie_t* h, u8* p, size_t n) { return h->digest(p, n); }
void apie_copy(apie_t* d, const apie_t* s) { *d = *s; }
void apie_cons_copy(void* d, const apie_t* s) { new (d) apie_t(*s); }

// verification, error by reference and by exception, by pointer and by container
void apie_verify_pe(apie_t* h, const u8* p, size_t n, error* e) { h->verify(p, n, *e); }
void apie_verify_ce(apie_t* h, const u8* p, size_t n, error* e) { h->verify(view(p, n), *e); }
void apie_verify_px(apie_t* h, const u8* p, size_t n, error*) { h->verify(p, n); }
void apie_verify_cx(apie_t* h, const u8* p, size_t n, error*) { h->verify(view(p, n)); }
void apie_verify_pec(apie_t* h, const u8* p, size_t n, error* e) { h->verify((const char*) p, n, *e); }
void apie_verify_pxc(apie_t* h, const u8* p, size_t n, error*) { h->verify((const char*) p, n); }

// one call forms: fixed part sizes would hide nothing, the sizes stay arguments
#define ARGS const u8* k, size_t kn, const u8* i, size_t in, const u8* a, size_t an
void one_encrypt_p(ARGS, const u8* p, size_t n, u8* c, u8* t) { primitive::aead::encrypt<raw_t>(k, kn, i, in, a, an, p, n, c, t); }
size_t one_decrypt_pe(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error* e) { return primitive::aead::decrypt<raw_t>(k, kn, i, in, a, an, c, n, t, tn, p, *e); }
size_t one_decrypt_px(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error*) { return primitive::aead::decrypt<raw_t>(k, kn, i, in, a, an, c, n, t, tn, p); }
// static plaintext container of five bytes
size_t one_decrypt_se(ARGS, const u8* c, size_t, const u8* t, size_t tn, u8* p, error* e)
{
    container::bytes_static<5> out{};
    auto r = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, 5), view(t, tn), out, *e);
    for (int j = 0; j < 5; j++) p[j] = out.data()[j];
    return r;
}
size_t one_decrypt_sx(ARGS, const u8* c, size_t, const u8* t, size_t tn, u8* p, error*)
{
    container::bytes_static<5> out{};
    auto r = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, 5), view(t, tn), out);
    for (int j = 0; j < 5; j++) p[j] = out.data()[j];
    return r;
}
size_t one_decrypt_de(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error* e)
{
    auto out = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, n), view(t, tn), *e);
    for (size_t j = 0; j < out.size(); j++) p[j] = out.data()[j];
    return out.size();
}
size_t one_decrypt_dx(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error*)
{
    auto out = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, n), view(t, tn));
    for (size_t j = 0; j < out.size(); j++) p[j] = out.data()[j];
    return out.size();
}
// dynamic plaintext container by reference
size_t one_decrypt_re(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error* e)
{
    container::bytes_dynamic out;
    auto r = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, n), view(t, tn), out, *e);
    for (size_t j = 0; j < out.size(); j++) p[j] = out.data()[j];
    return r;
}
size_t one_decrypt_rx(ARGS, const u8* c, size_t n, const u8* t, size_t tn, u8* p, error*)
{
    container::bytes_dynamic out;
    auto r = primitive::aead::decrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(c, n), view(t, tn), out);
    for (size_t j = 0; j < out.size(); j++) p[j] = out.data()[j];
    return r;
}
size_t one_encrypt_d(ARGS, const u8* p, size_t n, u8* c, u8* t)
{
    auto [out, tag] = primitive::aead::encrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(p, n));
    for (size_t j = 0; j < out.size(); j++) c[j] = out.data()[j];
    for (size_t j = 0; j < 16; j++) t[j] = tag.data()[j];
    return out.size();
}
size_t one_encrypt_s(ARGS, const u8* p, size_t, u8* c, u8* t)
{
    container::bytes_static<5> out{};
    container::bytes_static<16> tag{};
    primitive::aead::encrypt<raw_t>(view(k, kn), view(i, in), view(a, an), view(p, 5), out, tag);
    for (size_t j = 0; j < 5; j++) c[j] = out.data()[j];
    for (size_t j = 0; j < 16; j++) t[j] = tag.data()[j];
    return out.size();
}
}
