// Entry points of the codecs.
#include <string>
#include <vector>
#include <array>
#include <span>
#include <string_view>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>

using namespace milo;
namespace cd = milo::primitive::codec;
using b16 = cd::base_16<>;
using b64 = cd::base_64<>;

#define CODEC(n, T)                                                                                                              \
    extern "C" {                                                                                                                 \
    size_t n##_enc(const uint8_t* p, size_t s, char* d) { return cd::encode<T>(p, s, d); }                                       \
    size_t n##_encu(const char* p, size_t s, uint8_t* d) { return T::encode(p, s, d); }                                          \
    size_t n##_encsize(const uint8_t* p, size_t s) { return cd::apie<T>::encode_size(p, s); }                                    \
    size_t n##_decsize(const char* p, size_t s) { return cd::apie<T>::decode_size(p, s); }                                       \
    size_t n##_decsizeu(const uint8_t* p, size_t s) { return T::decode_size(p, s); }                                             \
    size_t n##_dec(const char* p, size_t s, uint8_t* d, int* e)                                                                  \
    {                                                                                                                            \
        error er(error::size);                                                                                                   \
        auto r = cd::decode<T>(p, s, d, er);                                                                                     \
        *e = int(error::code(er));                                                                                               \
        return r;                                                                                                                \
    }                                                                                                                            \
    size_t n##_decu(const uint8_t* p, size_t s, char* d, int* e)                                                                 \
    {                                                                                                                            \
        error er;                                                                                                                \
        auto r = T::decode(p, s, d, er);                                                                                         \
        *e = int(error::code(er));                                                                                               \
        return r;                                                                                                                \
    }                                                                                                                            \
    size_t n##_dect(const char* p, size_t s, uint8_t* d, int* e)                                                                 \
    {                                                                                                                            \
        *e = 0;                                                                                                                  \
        try { return cd::decode<T>(p, s, d); } catch (const error& x) { *e = int(error::code(x)); }                              \
        return 0;                                                                                                                \
    }                                                                                                                            \
    size_t n##_decc(const char* p, size_t s, uint8_t* d, int* e)                                                                 \
    {                                                                                                                            \
        error er(error::size);                                                                                                   \
        std::string_view v(p, s);                                                                                                \
        std::vector<uint8_t> o;                                                                                                  \
        auto r = cd::decode<T>(v, o, er);                                                                                        \
        *e = int(error::code(er));                                                                                               \
        if (r != o.size()) *e += 1000;                                                                                           \
        for (size_t i = 0; i < o.size(); i++) d[i] = o[i];                                                                       \
        return r;                                                                                                                \
    }                                                                                                                            \
    size_t n##_decct(const char* p, size_t s, uint8_t* d, int* e)                                                                \
    {                                                                                                                            \
        std::string_view v(p, s);                                                                                                \
        *e = 0;                                                                                                                  \
        try {                                                                                                                    \
            auto o = cd::decode<T, std::vector<uint8_t>>(v);                                                                     \
            for (size_t i = 0; i < o.size(); i++) d[i] = o[i];                                                                   \
            return o.size();                                                                                                     \
        } catch (const error& x) { *e = int(error::code(x)); }                                                                   \
        return 0;                                                                                                                \
    }                                                                                                                            \
    size_t n##_encc(const uint8_t* p, size_t s, char* d)                                                                         \
    {                                                                                                                            \
        auto o = cd::encode<T, std::vector<char>>(std::span<const uint8_t>(p, s));                                               \
        for (size_t i = 0; i < o.size(); i++) d[i] = o[i];                                                                       \
        return o.size();                                                                                                         \
    }                                                                                                                            \
    }

CODEC(b16, b16)
CODEC(b64, b64)
