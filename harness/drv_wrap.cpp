// Runs the forms of the convenience interface on the real primitives.
// input lines: FORM KEY SALT MESSAGE SIZE COUNT (hexadecimal, "-" for empty); output: result, error code, 192 bytes of output area
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <milo/internal.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/codec/base.h>

using r_hash = milo::primitive::hash::sha_2_256<>;
using r_mac = milo::primitive::mac::hmac<r_hash>;
using r_hkdf = milo::primitive::kdf::hkdf<r_mac>;
using r_pbkdf = milo::primitive::kdf::pbkdf_2<r_mac>;
using r_cipher = milo::primitive::cipher::chacha_20<>;
using r_codec = milo::primitive::codec::base_64<>;
#define HASH r_hash
#define MAC r_mac
#define HKDF r_hkdf
#define PBKDF r_pbkdf
#define CIPHER r_cipher
#define CODEC r_codec

#define PARAMS const uint8_t *k, size_t kn, const uint8_t *s, size_t sn, const uint8_t *m, size_t n, uint8_t *out, size_t dn, uint32_t it
using fn = size_t (*)(PARAMS);
static std::map<std::string, fn>& table() { static std::map<std::string, fn> t; return t; }
struct reg { reg(const char* n, fn f) { table()[n] = f; } };
#define FORM(name) static size_t name(PARAMS); static reg reg_##name(#name, name); static size_t name(PARAMS)
#include "wrap_forms.h"

static std::vector<uint8_t> hex(const std::string& t)
{
    std::vector<uint8_t> r;
    r.reserve(t.size() / 2 ? t.size() / 2 : 1);    // never a null pointer
    if (t == "-") return r;
    for (size_t i = 0; i + 1 < t.size(); i += 2) r.push_back(uint8_t(std::stoi(t.substr(i, 2), nullptr, 16)));
    return r;
}

int main()
{
    std::string f, k, s, m;
    size_t dn;
    uint32_t it;
    while (std::cin >> f >> k >> s >> m >> dn >> it)
    {
        auto kb = hex(k), sb = hex(s), mb = hex(m);
        auto sn = sb.size();
        sb.resize(sn < 4 ? 4 : sn);
        std::vector<uint8_t> out(192, 0xa5);
        auto& a = mb;
        auto r = table().at(f)(kb.data(), kb.size(), sb.data(), sn, a.data(), a.size(), out.data(), dn, it);
        int e = 0;
        if (f[0] == 'y') memcpy(&e, sb.data(), 4);
        std::cout << r << " " << e << " ";
        for (auto x : out) { const char* d = "0123456789abcdef"; std::cout << d[x >> 4] << d[x & 15]; }
        std::cout << "\n";
    }
}
