// Digests of "abc" (key "k") read with every configured digest size.
// input lines: NAME METHOD SIZE; output: returned size, size constant, 400 bytes of a buffer filled with a5
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <milo/internal.h>
#include <milo/option.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>

using namespace milo;
using fn = size_t (*)(char, uint8_t*, size_t, size_t&);
static std::map<std::string, fn> table;
template<typename T> static size_t go(char how, uint8_t* out, size_t n, size_t& size)
{
    T* h = new T;
    if constexpr (requires { h->initialize(); }) h->initialize(); else h->initialize("k", 1);
    h->update("abc", 3);
    h->finalize();
    size = T::digest_size;
    return how == 'd' ? h->digest(out) : how == 'c' ? h->digest((char*) out, n) : h->digest(out, n);
}
// NAME+HOW u SIZE: reads SIZE bytes, then everything, the second time from the same object or a copy
using fn2 = void (*)(const std::string&, uint8_t*, size_t, uint8_t*);
static std::map<std::string, fn2> table2;
template<typename T> static void twice(const std::string& how, uint8_t* first, size_t n, uint8_t* second)
{
    T* h = new T;
    if constexpr (requires { h->initialize(); }) h->initialize(); else h->initialize("k", 1);
    h->update("abc", 3);
    h->finalize();
    h->digest(first, n);
    T* c = h;
    if (how == "cons") c = new T(*h);
    if (how == "copy") { c = new T; *c = *h; }
    if (c != h) { h->~T(); memset((void*) h, 0x3c, sizeof(T)); }
    c->digest(second, T::digest_size);
}
static std::string hex(const uint8_t* p, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; i++) { r += "0123456789abcdef"[p[i] >> 4]; r += "0123456789abcdef"[p[i] & 15]; }
    return r;
}
template<template<typename...> class T, size_t D> static void family(const std::string& n)
{
    table[n] = go<T<>>;
    table2[n] = twice<T<>>;
    table[n + "_0"] = go<T<option::digest_size<0>>>;
    table[n + "_1"] = go<T<option::digest_size<1>>>;
    table[n + "_odd"] = go<T<option::digest_size<D - 5>>>;
    table[n + "_word"] = go<T<option::digest_size<8>>>;
    table[n + "_same"] = go<T<option::digest_size<D>>>;
    table[n + "_more"] = go<T<option::digest_size<D + 4>>>;
    table[n + "_much"] = go<T<option::digest_size<300>>>;
}
template<typename... T> using hm = primitive::mac::hmac<primitive::hash::sha_2_256<>, T...>;
template<typename... T> using rhm = primitive::mac::hmac<primitive::hash::sha_2_384<>, T...>;

int main()
{
    namespace ph = primitive::hash;
    family<ph::sha_1_160, 20>("sha1");
    family<ph::sha_2_224, 28>("sha224");
    family<ph::sha_2_256, 32>("sha256");
    family<ph::sha_2_384, 48>("sha384");
    family<ph::sha_2_512, 64>("sha512");
    family<ph::sha_2_512_224, 28>("sha512_224");
    family<ph::sha_2_512_256, 32>("sha512_256");
    family<primitive::mac::poly_1305, 16>("poly");
    family<hm, 32>("hmac");
    family<rhm, 48>("rhmac");
    std::string n;
    char how;
    size_t s;
    while (std::cin >> n >> how >> s)
    {
        uint8_t out[400];
        if (auto i = n.find('+'); i != n.npos)
        {
            uint8_t full[64];
            auto f = n.substr(0, i);
            auto d = f == "poly" ? 16 : f == "hmac" ? 32 : f == "rhmac" ? 48 : f == "sha1" ? 20 : f == "sha256" || f == "sha512_256" ? 32 : f == "sha384" ? 48 : f == "sha512" ? 64 : 28;
            table2.at(f)(n.substr(i + 1), out, s, full);
            std::cout << hex(out, s < size_t(d) ? s : d) << " " << hex(full, d) << "\n";
            continue;
        }
        memset(out, 0xa5, sizeof out);
        size_t c;
        size_t r = table.at(n)(how, out, s, c);
        std::cout << r << " " << c << " ";
        for (auto x : out) std::cout << "0123456789abcdef"[x >> 4] << "0123456789abcdef"[x & 15];
        std::cout << "\n";
    }
}
