// Small line-oriented interpreter used to replay counterexamples against the native build.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>

// objects are replaced, not freed
extern "C" inline __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0"; }

struct data
{
    const uint8_t* p = nullptr;
    size_t n = 0;
    std::vector<uint8_t> own;
};

// h:<hex>  z:<n> zero bytes  x:<n>:<hex byte> repeated  n: null pointer and size 0
inline data get(const std::string& s)
{
    data d;
    if (s[0] == 'h') {
        for (size_t i = 2; i + 1 < s.size(); i += 2)
            d.own.push_back((uint8_t) strtoul(s.substr(i, 2).c_str(), nullptr, 16));
        d.n = d.own.size();
        // an exact heap block, so that sanitizer builds see out of bounds accesses
        auto q = (uint8_t*) malloc(d.n ? d.n : 1);
        if (d.n) memcpy(q, d.own.data(), d.n);
        d.p = q;
    } else if (s[0] == 'z') {
        d.n = strtoull(s.c_str() + 2, nullptr, 0);
        auto q = mmap(nullptr, d.n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) { printf("nomem\n"); exit(9); }
        d.p = (uint8_t*) q;
    }
    return d;
}

inline std::string hex(const uint8_t* p, size_t n)
{
    std::string r;
    char b[3];
    for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); r += b; }
    return r;
}

inline std::vector<std::string> words(const std::string& l)
{
    std::istringstream s(l);
    std::vector<std::string> v;
    std::string w;
    while (s >> w) v.push_back(w);
    return v;
}

struct obj
{
    virtual ~obj() = default;
    virtual void cmd(const std::vector<std::string>& w) = 0;
};

// a new object; its storage held something else before
template<typename T>
T* fresh()
{
    auto p = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
    memset(p, 0x5a, sizeof(T));
    return new (p) T;
}

// carry on with a copy of an object (the original is overwritten), or with the original after its copy was
template<typename T>
T* recopy(T* o, const std::string& how)
{
    auto p = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
    memset(p, 0x5a, sizeof(T));
    T* c;
    if (how == "copy") { c = new (p) T; *c = *o; }
    else if (how == "cons_move") c = new (p) T(static_cast<T&&>(*o));
    else c = new (p) T(*o);
    if (how == "orig") std::swap(o, c);
    o->~T();
    memset((void*) o, 0x3c, sizeof(T));
    return c;
}
