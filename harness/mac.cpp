// Entry points of Poly1305.
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/poly.h>

using namespace milo;

#define MAC(name, T)                                                                                \
    using name##_t = T;                                                                             \
    extern "C" {                                                                                    \
    void name##_construct(void* p) { new (p) name##_t; }                                            \
    void name##_destroy(name##_t* h) { h->~name##_t(); }                                            \
    void name##_init(name##_t* h, const uint8_t* k, size_t n) { h->initialize(k, n); }              \
    void name##_initc(name##_t* h, const char* k, size_t n) { h->initialize(k, n); }                \
    void name##_update(name##_t* h, const uint8_t* p, size_t n) { h->update(p, n); }                \
    void name##_updatec(name##_t* h, const char* p, size_t n) { h->update(p, n); }                  \
    void name##_final(name##_t* h) { h->finalize(); }                                               \
    size_t name##_digest(const name##_t* h, uint8_t* p, size_t n) { return h->digest(p, n); }       \
    void name##_copy(name##_t* d, const name##_t* s) { *d = *s; }                                   \
    void name##_cons_copy(void* d, const name##_t* s) { new (d) name##_t(*s); }                     \
    extern const size_t name##_info[];                                                              \
    const size_t name##_info[] = {sizeof(name##_t), name##_t::key_size, name##_t::digest_size};     \
    }

MAC(poly, primitive::mac::poly_1305<>)
