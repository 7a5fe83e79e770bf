#include "drv.h"
#include "cipher.cpp"
#include <milo/option.h>

using d_avx2 = primitive::detail::cipher_chacha_impl_hw_x86_64_avx_2_ietf;
using d_ssse3 = primitive::detail::cipher_chacha_impl_hw_x86_64_ssse_3_ietf;
using d_sw = primitive::detail::cipher_chacha_impl_sw_ietf;

struct cobj
{
    virtual ~cobj() = default;
    virtual void copy(const std::string& how) = 0;
    virtual void init(data k, data i) = 0;
    virtual size_t run(bool enc, data s, uint8_t* d) = 0;
};

template<typename T>
struct cobj_t : cobj
{
    T* t = fresh<T>();
    void copy(const std::string& how) override { t = recopy(t, how); }
    void init(data k, data i) override { t->initialize(k.p, k.n, i.p, i.n); }
    size_t run(bool enc, data s, uint8_t* d) override { return enc ? t->encrypt(s.p, s.n, d) : t->decrypt(s.p, s.n, d); }
};

template<typename B>
using enf = cobj_t<primitive::cipher::chacha_20<option::impl_enforce<B>>>;

// plain reference, used for replays too long for the Python one
struct reference
{
    uint32_t s[16]{0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    static uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
    static void qr(uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d)
    {
        a += b; d = rl(d ^ a, 16);
        c += d; b = rl(b ^ c, 12);
        a += b; d = rl(d ^ a, 8);
        c += d; b = rl(b ^ c, 7);
    }
    void block(uint32_t ctr, uint8_t* o) const
    {
        uint32_t x[16];
        memcpy(x, s, 64);
        x[12] = ctr;
        uint32_t y[16];
        memcpy(y, x, 64);
        for (int i = 0; i < 10; i++) {
            for (int j = 0; j < 4; j++) qr(x[j], x[j + 4], x[j + 8], x[j + 12]);
            for (int j = 0; j < 4; j++) qr(x[j], x[4 + (j + 1) % 4], x[8 + (j + 2) % 4], x[12 + (j + 3) % 4]);
        }
        for (int i = 0; i < 16; i++) x[i] += y[i];
        memcpy(o, x, 64);
    }
};

int main()
{
    reference ref;
    bool avx2 = __builtin_cpu_supports("avx2"), ssse3 = __builtin_cpu_supports("ssse3");
    std::string l;
    std::unique_ptr<cobj> o;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w[0] == "blk") {
            auto n = strtoull(w[3].c_str(), nullptr, 0);
            auto s = get(w[4]);
            auto p = w.size() > 5 ? get(w[5]) : data{};
            std::vector<uint32_t> st(16);
            memcpy(st.data(), s.p, 64);
            size_t ratio = w[1] == "avx_2" ? 8 : w[1] == "ssse_3" ? 4 : 1;
            if ((ratio == 8 && !avx2) || (ratio == 4 && !ssse3)) { printf("unsupported\n"); continue; }
            auto d = (uint8_t*) malloc(64 * ratio * n + 1);
            memset(d, 0xa5, 64 * ratio * n + 1);
            size_t r = 0;
            bool tr = w[2] == "transform";
            if (ratio == 8) r = tr ? d_avx2::transform(n, st.data(), d, p.p) : d_avx2::generate(n, st.data(), d);
            else if (ratio == 4) r = tr ? d_ssse3::transform(n, st.data(), d, p.p) : d_ssse3::generate(n, st.data(), d);
            else r = tr ? d_sw::transform(n, st.data(), d, p.p) : d_sw::generate(n, st.data(), d);
            printf("%zu %s\n", r, hex(d, 64 * ratio * n).c_str());
        } else if (w[0] == "new") {
            if (w[1] == "enforce_avx_2" && avx2) o = std::make_unique<enf<d_avx2>>();
            else if (w[1] == "enforce_ssse_3" && ssse3) o = std::make_unique<enf<d_ssse3>>();
            else if (w[1] == "enforce_sw") o = std::make_unique<enf<d_sw>>();
            else o = std::make_unique<cobj_t<primitive::cipher::chacha_20<>>>();
        } else if (w[0] == "init") {
            auto k = get(w[1]), v = get(w[2]);
            if (k.n == 32 && v.n == 16) { memcpy(ref.s + 4, k.p, 32); memcpy(ref.s + 12, v.p, 16); }
            o->init(k, v);
        } else if (w[0] == "copy") {
            o->copy(w[1]);
        } else if (w[0] == "big") {
            // big <inplace> <op> <size> ...: zeros processed, every output byte compared
            uint64_t pos = 0;
            bool ok = true;
            for (size_t i = 2; i + 1 < w.size(); i += 2) {
                data s = get("z:" + w[i + 1]);
                auto d = (uint8_t*) calloc(s.n + 1, 1);
                if (!d) { printf("nomem\n"); return 0; }
                if (w[1] == "1") s.p = d;
                auto r = o->run(w[i].substr(0, 3) == "enc", s, d);
                if (r != s.n) { printf("operation %zu returned %zu\n", i / 2 - 1, r); ok = false; }
                uint8_t blk[64];
                uint64_t cur = ~0ull;
                for (uint64_t j = 0; j < s.n && ok; j++, pos++) {
                    if (pos / 64 != cur) ref.block(ref.s[12] + uint32_t(cur = pos / 64), blk);
                    if (d[j] != blk[pos % 64]) { printf("operation %zu byte %zu is %02x not %02x\n", i / 2 - 1, (size_t) j, d[j], blk[pos % 64]); ok = false; }
                }
                free(d);
            }
            if (ok) printf("ok\n");
        } else {
            auto s = get(w[1]);
            bool in = w.size() > 2 && w[2] == "inplace";
            auto d = in ? const_cast<uint8_t*>(s.p) : (uint8_t*) malloc(s.n ? s.n : 1);
            auto r = o->run(w[0].substr(0, 3) == "enc", s, d);
            printf("%zu %s\n", r, hex(d, s.n).c_str());
        }
    }
}
