// Every object and every range flush against an inaccessible page; input ranges are not writable.
#include "erase.cpp"
#include <milo/container.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#ifdef SOFTWARE
extern "C" void milo_internal_arch_x86_64_cpuid(uint32_t* p, uint32_t, uint32_t) noexcept(true) { p[0] = p[1] = p[2] = p[3] = 0; }
#endif

static bool low;

// n bytes that end (or begin) where the accessible memory does
static u8* range(size_t n, bool writable, int fill)
{
    size_t body = (n + 4095) / 4096 * 4096;
    auto p = (u8*) mmap(nullptr, body + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { printf("nomem\n"); exit(9); }
    if (body) mprotect(p + 4096, body, PROT_READ | PROT_WRITE);
    if (body && body <= 1 << 26) memset(p + 4096, fill, body);
    if (body && !writable) mprotect(p + 4096, body, PROT_READ);
    return low ? p + 4096 : p + 4096 + body - n;
}

static void on(int, siginfo_t*, void*)
{
    const char m[] = "fault\n";
    (void) !write(1, m, sizeof(m) - 1);
    _exit(0);
}

using line = std::vector<std::string>;

template<typename T>
void play(const line& w)
{
    auto h = new (range(sizeof(T), true, 0x77)) T;
    for (size_t i = 1; i < w.size(); )
    {
        auto op = w[i++];
        auto num = [&] { return size_t(strtoull(w[i++].c_str(), nullptr, 0)); };
        auto in = [&](size_t n) { return (const u8*) range(n, false, 0x61); };
        if (op == "I")
        {
            size_t kn = num(), vn = num(), sn = num(), it = num();
            (void) vn, (void) sn, (void) it;
            if constexpr (requires { h->initialize(); }) h->initialize();
            else if constexpr (requires { h->initialize(in(1), kn); }) h->initialize(in(kn), kn);
            else if constexpr (requires { h->initialize(in(1), kn, in(1), vn, in(1), sn); }) h->initialize(in(kn), kn, in(vn), vn, in(sn), sn);
            else if constexpr (requires { h->initialize(in(1), kn, in(1), vn, uint32_t(it)); }) h->initialize(in(kn), kn, in(vn), vn, it);
            else if constexpr (requires { h->initialize(in(1), kn, in(1), vn); }) h->initialize(in(kn), kn, in(vn), vn);
        }
        if (op == "U") { size_t n = num(); if constexpr (requires { h->update(in(1), n); }) h->update(in(n), n); }
        if (op == "A") { size_t n = num(); if constexpr (requires { h->aad(in(1), n); }) h->aad(in(n), n); }
        if (op == "O") { if constexpr (requires { h->aadover(); }) h->aadover(); }
        if (op == "E") { size_t n = num(); if constexpr (requires { h->encrypt(in(1), n, (u8*) nullptr); }) h->encrypt(in(n), n, range(n, true, 1)); }
        if (op == "X") { size_t n = num(); if constexpr (requires { h->decrypt(in(1), n, (u8*) nullptr); }) h->decrypt(in(n), n, range(n, true, 1)); }
        if (op == "E=") { size_t n = num(); if constexpr (requires { h->encrypt(in(1), n, (u8*) nullptr); }) { auto p = range(n, true, 1); h->encrypt(p, n, p); } }
        if (op == "F") { if constexpr (requires { h->finalize(); }) h->finalize(); }
        if (op == "G") { size_t n = num(); if constexpr (requires { h->digest(range(1, true, 1), n); }) h->digest(range(n, true, 1), n); }
        if (op == "GD") { if constexpr (requires { h->digest(range(1, true, 1)); }) h->digest(range(T::digest_size, true, 1)); }
        if (op == "R") { size_t n = num(); if constexpr (requires { h->derive(range(1, true, 1), n); }) h->derive(range(n, true, 1), n); }
        if (op == "V") { size_t n = num(); error e; if constexpr (requires { h->verify(in(1), n, e); }) h->verify(in(n), n, e); }
        if (op == "C") { auto c = new (range(sizeof(T), true, 0x77)) T(*h); h = c; }
        if (op == "C=") { auto c = new (range(sizeof(T), true, 0x77)) T; *c = *h; h = c; }
        if (op == "Z") { h->~T(); new (h) T; }
    }
    h->~T();
}

template<typename... T> using hm384 = P::mac::hmac<P::hash::sha_2_384<>, T...>;

namespace D = primitive::detail;
template<typename B> using enf = P::cipher::chacha_20<option::impl_enforce<B>>;

int main()
{
    struct sigaction s{};
    s.sa_sigaction = on;
    s.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &s, nullptr);
    sigaction(SIGBUS, &s, nullptr);
    std::string l;
    while (std::getline(std::cin, l))
    {
        line w;
        std::istringstream in(l);
        for (std::string x; in >> x; ) w.push_back(x);
        for (int k = 0; k < 2; k++)
        {
            low = k;
            // one line: an op list for one object
#define X(t) if (w[0] == #t) play<t##_t>(w);
            X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha512_224) X(sha512_256) X(poly) X(hmac1) X(hmac256) X(hmac512) X(chacha) X(aead) X(hkdf) X(pbkdf)
            X(api_sha256) X(api_poly) X(api_hmac) X(api_chacha) X(api_aead) X(api_hkdf) X(api_pbkdf)
#define Y(n, ...) if (w[0] == n) play<__VA_ARGS__>(w);
            Y("hmac224", P::mac::hmac<P::hash::sha_2_224<>>) Y("hmac384", hm384<>) Y("hmac512_224", P::mac::hmac<P::hash::sha_2_512_224<>>) Y("hmac512_256", P::mac::hmac<P::hash::sha_2_512_256<>>)
            Y("hkdf1", P::kdf::hkdf<P::mac::hmac<P::hash::sha_1_160<>>>) Y("hkdf224", P::kdf::hkdf<P::mac::hmac<P::hash::sha_2_224<>>>)
            Y("hkdf384", P::kdf::hkdf<hm384<>>) Y("hkdf512", P::kdf::hkdf<P::mac::hmac<P::hash::sha_2_512<>>>)
            Y("pbkdf1", P::kdf::pbkdf_2<P::mac::hmac<P::hash::sha_1_160<>>>) Y("pbkdf224", P::kdf::pbkdf_2<P::mac::hmac<P::hash::sha_2_224<>>>)
            Y("pbkdf384", P::kdf::pbkdf_2<hm384<>>) Y("pbkdf512", P::kdf::pbkdf_2<P::mac::hmac<P::hash::sha_2_512<>>>)
            Y("chacha_sw", enf<D::cipher_chacha_impl_sw_ietf>)
#ifndef SOFTWARE
            if (__builtin_cpu_supports("ssse3")) { Y("chacha_ssse_3", enf<D::cipher_chacha_impl_hw_x86_64_ssse_3_ietf>) }
            if (__builtin_cpu_supports("avx2")) { Y("chacha_avx_2", enf<D::cipher_chacha_impl_hw_x86_64_avx_2_ietf>) }
#endif
#define S(n, T) Y(n "_0", T<option::digest_size<0>>) Y(n "_1", T<option::digest_size<1>>) Y(n "_word", T<option::digest_size<8>>) Y(n "_more", T<option::digest_size<68>>) Y(n "_much", T<option::digest_size<300>>)
            S("sha1", P::hash::sha_1_160) S("sha256", P::hash::sha_2_256) S("sha512", P::hash::sha_2_512) S("poly", P::mac::poly_1305) S("hmac", hm384)
            if (w[0].starts_with("blocks_"))
            {
                size_t n = strtoull(w[1].c_str(), nullptr, 0);
                auto f = w[0].substr(7);
                bool wide = f == "sha512";
                auto st = range(f == "sha1" ? 20 : wide ? 64 : 32, true, 3);
                auto p = range(n * (wide ? 128 : 64), false, 5);
                if (f == "sha1") D::hash_sha_1_160_impl_sw::blocks(n, (uint32_t*) st, p);
                if (f == "sha256") D::hash_sha_2_256_impl_sw::blocks(n, (uint32_t*) st, p);
                if (wide) D::hash_sha_2_512_impl_sw::blocks(n, (uint64_t*) st, p);
                auto cs = (uint32_t*) range(64, false, 9);
                if (f == "transform") D::cipher_chacha_impl_sw_ietf::transform(n, cs, range(n * 64, true, 7), p);
                if (f == "generate") D::cipher_chacha_impl_sw_ietf::generate(n, cs, range(n * 64, true, 7));
            }
        }
        printf("ok\n");
        fflush(stdout);
    }
}
