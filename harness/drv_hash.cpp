#include "drv.h"
#include <milo/option.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>

using namespace milo;

// hash <type>; I; U data; UC data (char overload); F; D n (prints result and n bytes of a buffer of n); DD (default size)
template<typename T>
struct hobj : obj
{
    T* p = fresh<T>();
    void cmd(const std::vector<std::string>& w) override
    {
        if (w[0] == "C") p = recopy(p, w[1]);
        T& h = *p;
        if (w[0] == "I") h.initialize();
        else if (w[0] == "O") { auto d = get(w[1]); if (d.n == sizeof(T)) memcpy((void*) p, d.p, d.n); } // as after a long message
        else if (w[0] == "U") { auto d = get(w[1]); h.update(d.p, d.n); }
        else if (w[0] == "UC") { auto d = get(w[1]); h.update((const char*) d.p, d.n); }
        else if (w[0] == "F") h.finalize();
        else if (w[0] == "D" || w[0] == "DC") {
            size_t n = strtoull(w[1].c_str(), nullptr, 0);
            size_t cap = std::min<size_t>(n, 4096);
            std::vector<uint8_t> b(cap + 16, 0xa5);
            size_t r = w[0] == "D" ? h.digest(b.data(), n) : h.digest((char*) b.data(), n);
            printf("%zu %s\n", r, hex(b.data(), b.size()).c_str());
        }
        else if (w[0] == "DD") {
            std::vector<uint8_t> b(160, 0xa5);
            size_t r = h.digest(b.data());
            printf("%zu %s\n", r, hex(b.data(), b.size()).c_str());
        }
        fflush(stdout);
    }
};

template<typename T>
struct aobj : obj
{
    primitive::hash::apie<T> h;
    void cmd(const std::vector<std::string>& w) override
    {
        if (w[0] == "I") h.initialize();
        else if (w[0] == "U") { auto d = get(w[1]); h.update(d.p, d.n); }
        else if (w[0] == "UC") { auto d = get(w[1]); h.update((const char*) d.p, d.n); }
        else if (w[0] == "D") {
            size_t n = strtoull(w[1].c_str(), nullptr, 0);
            size_t cap = std::min<size_t>(n, 4096);
            std::vector<uint8_t> b(cap + 16, 0xa5);
            size_t r = h.digest(b.data(), n);
            printf("%zu %s\n", r, hex(b.data(), b.size()).c_str());
        }
        fflush(stdout);
    }
};

template<typename I> struct en { using type = option::impl_enforce<I>; };
namespace pd = primitive::detail;

int main()
{
    std::unique_ptr<obj> o;
    std::string l;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w.empty()) continue;
        if (w[0] == "hash") {
            auto t = w[1];
            #define H(n, T, SW) if (t == n) o.reset(new hobj<primitive::hash::T<>>); \
                if (t == n "_sw") o.reset(new hobj<primitive::hash::T<option::impl_enforce<pd::SW>>>); \
                if (t == n "_apie") o.reset(new aobj<primitive::hash::T<>>);
            #define HN(n, T, NI) if (t == n "_ni") o.reset(new hobj<primitive::hash::T<option::impl_enforce<pd::NI>>>);
            H("sha1", sha_1_160, hash_sha_1_160_impl_sw) H("sha224", sha_2_224, hash_sha_2_256_impl_sw)
            H("sha256", sha_2_256, hash_sha_2_256_impl_sw) H("sha384", sha_2_384, hash_sha_2_512_impl_sw)
            H("sha512", sha_2_512, hash_sha_2_512_impl_sw) H("sha512_224", sha_2_512_224, hash_sha_2_512_impl_sw)
            H("sha512_256", sha_2_512_256, hash_sha_2_512_impl_sw)
            HN("sha1", sha_1_160, hash_sha_1_160_impl_hw_x86_64_ni) HN("sha224", sha_2_224, hash_sha_2_256_impl_hw_x86_64_ni)
            HN("sha256", sha_2_256, hash_sha_2_256_impl_hw_x86_64_ni)
        } else if (w[0] == "blocks") {
            // blocks <backend> <count> <state hex, memory order> <data>
            auto st = get(w[3]);
            auto d = get(w[4]);
            size_t n = strtoull(w[2].c_str(), nullptr, 0);
            alignas(16) uint8_t s[64];
            memcpy(s, st.p, st.n);
            if (w[1] == "sha1_sw") pd::hash_sha_1_160_impl_sw::blocks(n, (uint32_t*) s, d.p);
            if (w[1] == "sha256_sw") pd::hash_sha_2_256_impl_sw::blocks(n, (uint32_t*) s, d.p);
            if (w[1] == "sha512_sw") pd::hash_sha_2_512_impl_sw::blocks(n, (uint64_t*) s, d.p);
            if (w[1] == "sha1_ni") pd::hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, (uint32_t*) s, d.p);
            if (w[1] == "sha256_ni") pd::hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, (uint32_t*) s, d.p);
            printf("%s\n", hex(s, st.n).c_str());
            fflush(stdout);
        } else if (o) o->cmd(w);
    }
}
