// What the sequence of branches and accessed addresses depends on.
#include "erase.cpp"
#include <milo/container.h>

using view_u = container::view_dynamic<const u8>;
using view_c = container::view_dynamic<const char>;
using sealed = P::aead::chacha_20_poly_1305<>;
using api_t = P::aead::apie<sealed>;

extern "C" {
bool ct_match(const u8* a, const u8* b, size_t n) { return internal::memory_match(a, b, n); }
bool ct_match_char(const char* a, const u8* b, size_t n) { return internal::memory_match(a, b, n); }
bool ct_match_word(const uint32_t* a, const u8* b, size_t n) { return internal::memory_match(a, b, n); }
bool ct_match_view(const u8* a, size_t n, const u8* b, size_t m) { return internal::memory_match(view_u(a, n), view_u(b, m)); }
bool ct_match_mixed(const u8* a, size_t n, const char* b, size_t m) { return internal::memory_match(view_u(a, n), view_c(b, m)); }

// authenticate and decrypt p, then compare the tag with the one given
void ct_verify(api_t* h, const u8* k, const u8* p, size_t n, size_t m, const u8* tag, size_t tn, u8* out, error* e, u8* own)
{
    u8 iv[12]{};
    new (h) api_t;
    h->initialize(k, 32, iv, sizeof(iv));
    h->aad(p, m);
    h->decrypt(p, n, out);
    h->digest(own, 16);
    h->verify(tag, tn, *e);
}

void ct_open(api_t*, const u8* k, const u8* p, size_t n, size_t m, const u8* tag, size_t tn, u8* out, error* e, u8*)
{
    u8 iv[12]{};
    P::aead::decrypt<sealed>(k, 32, iv, sizeof(iv), p, m, p, n, tag, tn, out, *e);
}
}
