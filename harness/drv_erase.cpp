// Replays: what the storage holds after a life with the given secrets.
#include "erase.cpp"
#include "drv.h"

static u8* seen;
static size_t seen_size;

void operator delete(void* p) noexcept
{
    if (seen) memcpy(seen, p, seen_size);
}

void operator delete(void* p, size_t) noexcept
{
    if (seen) memcpy(seen, p, seen_size);
}

static void* where;
static void catch_(void* p) { where = p; }

template<typename T>
__attribute__((noinline)) void life(const std::string& how, const std::vector<u8>& filled, void (*use)(T*, const u8*, size_t, const u8*, size_t, size_t, int, u8*),
    void (*end)(T*), void (*del)(T*), void (*local)(const T*, void (*)(void*)), const data& k, const data& p, size_t m, int fin)
{
    std::vector<u8> out(4096), dump(sizeof(T));
    auto h = (T*) malloc(sizeof(T) + 64);
    memset((void*) h, 0x5a, sizeof(T));
    use(h, k.p, k.n, p.p, p.n, m, fin, out.data());
    if (filled.size() == sizeof(T)) memcpy((void*) h, filled.data(), sizeof(T));
    seen = dump.data();
    seen_size = sizeof(T);
    if (how == "end") { end(h); memcpy(dump.data(), (void*) h, sizeof(T)); }
    if (how == "delete") del(h);
    if (how == "local")
    {
        local(h, catch_);
        // the frame is gone, its bytes are not yet overwritten
        auto q = (volatile u8*) where;
        for (size_t i = 0; i < sizeof(T); i++) dump[i] = q[i];
    }
    seen = nullptr;
    for (auto b: dump) printf("%02x", b);
    printf("\n");
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string f, how, ks, ps, fs;
        size_t m;
        int fin;
        in >> f >> how >> ks >> ps >> m >> fin >> fs;
        auto k = get(ks), p = get(ps);
        std::vector<u8> fill;
        for (size_t i = 2; i + 1 < fs.size(); i += 2) fill.push_back((u8) strtoul(fs.substr(i, 2).c_str(), nullptr, 16));
#define L(n) if (f == #n) life<n##_t>(how, fill, n##_use, n##_end, n##_delete, n##_local, k, p, m, fin);
        L(sha1) L(sha224) L(sha256) L(sha384) L(sha512) L(sha512_224) L(sha512_256) L(poly) L(hmac1) L(hmac256) L(hmac512) L(chacha) L(aead) L(hkdf) L(pbkdf)
        L(api_sha256) L(api_poly) L(api_hmac) L(api_chacha) L(api_aead) L(api_hkdf) L(api_pbkdf)
    }
}
