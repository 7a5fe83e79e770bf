#include <milo/internal.h>
#include "drv.h"
#include <milo/option.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/hmac.h>
using namespace milo;


template<class K>
static void out(K& k, const std::vector<std::string>& w)
{
    size_t n = strtoull(w[1].c_str(), nullptr, 0);
    auto d = (uint8_t*) malloc(n + 16);
    memset(d, 0xa5, n + 16);
    size_t r = k.derive(d, n);
    if (w[0] == "R") printf("%zu %s\n", r, hex(d, n + 16).c_str());
    free(d);
}

template<class T>
struct hmac_o : obj {
    T* p = fresh<T>();
    void cmd(const std::vector<std::string>& w) override
    {
        if (w[0] == "C") p = recopy(p, w[1]);
        T& o = *p;
        if (w[0] == "I") { auto d = get(w[1]); o.initialize(d.p, d.n); }
        if (w[0] == "U") { auto d = get(w[1]); o.update(d.p, d.n); }
        if (w[0] == "F") o.finalize();
        if (w[0] == "D") {
            size_t n = strtoull(w[1].c_str(), nullptr, 0), m = std::min<size_t>(n, 4096) + 16;
            auto d = (uint8_t*) malloc(m);
            memset(d, 0xa5, m);
            auto r = o.digest(d, n);
            printf("%zu %s\n", r, hex(d, m).c_str());
            free(d);
        }
    }
};

template<class T>
struct hkdf_o : obj {
    T* p = fresh<T>();
    void cmd(const std::vector<std::string>& w) override
    {
        if (w[0] == "C") p = recopy(p, w[1]);
        T& o = *p;
        if (w[0] == "I") { auto a = get(w[1]), b = get(w[2]), c = get(w[3]); o.initialize(a.p, a.n, b.p, b.n, c.p, c.n); }
        if (w[0] == "R" || w[0] == "S") out(o, w);
    }
};

template<class T>
struct pbkdf_o : obj {
    T* p = fresh<T>();
    void cmd(const std::vector<std::string>& w) override
    {
        if (w[0] == "C") p = recopy(p, w[1]);
        T& o = *p;
        if (w[0] == "I") { auto a = get(w[1]), b = get(w[2]); o.initialize(a.p, a.n, b.p, b.n, strtoul(w[3].c_str(), nullptr, 0)); }
        if (w[0] == "R" || w[0] == "S") out(o, w);
    }
};

template<class H>
static obj* pick(const std::string& k)
{
    using mac = primitive::mac::hmac<H>;
    if (k == "hmac") return new hmac_o<mac>;
    if (k == "hkdf") return new hkdf_o<primitive::kdf::hkdf<mac>>;
    return new pbkdf_o<primitive::kdf::pbkdf_2<mac>>;
}

int main()
{
    std::string l;
    obj* o = nullptr;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w.empty()) continue;
        if (w[0] == "hmac" || w[0] == "hkdf" || w[0] == "pbkdf") {
            namespace h = primitive::hash;
            auto& a = w[1];
            if (a == "sha1") o = pick<h::sha_1_160<>>(w[0]);
            if (a == "sha224") o = pick<h::sha_2_224<>>(w[0]);
            if (a == "sha256") o = pick<h::sha_2_256<>>(w[0]);
            if (a == "sha384") o = pick<h::sha_2_384<>>(w[0]);
            if (a == "sha512") o = pick<h::sha_2_512<>>(w[0]);
            if (a == "sha512_224") o = pick<h::sha_2_512_224<>>(w[0]);
            if (a == "sha512_256") o = pick<h::sha_2_512_256<>>(w[0]);
        } else
            o->cmd(w);
    }
}
