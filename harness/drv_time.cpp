// Traces: a digest of the executed instructions, or of the accessed addresses, of one operation.
#include "time.cpp"
#include "drv.h"
#include <signal.h>
#include <ucontext.h>

static volatile uint64_t trace, steps;
static volatile bool tracing;

__attribute__((no_sanitize("coverage"))) static void note(uint64_t v)
{
    if (tracing)
    {
        trace = trace * 1099511628211ull ^ v;
        steps = steps + 1;
    }
}

#ifdef SOFTWARE
// no processor features: the portable code runs
extern "C" void milo_internal_arch_x86_64_cpuid(uint32_t* p, uint32_t, uint32_t) noexcept(true) { p[0] = p[1] = p[2] = p[3] = 0; }
#endif

// a comparison that stops at the first difference, as the C library's may
extern "C" __attribute__((noinline, no_sanitize("coverage"))) int memcmp(const void* a, const void* b, size_t n) noexcept
{
    auto p = (const volatile uint8_t*) a, q = (const volatile uint8_t*) b;
    for (size_t i = 0; i < n; i++)
    {
        note(i);
        if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    }
    return 0;
}
extern "C" int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }

extern "C" {
#define ACCESS(n) __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_load##n(void* p) { note((uint64_t) p); } \
    __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_store##n(void* p) { note((uint64_t) p); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { note((uint64_t) __builtin_return_address(0)); }
}

static void on(int, siginfo_t*, void* c)
{
    note(((ucontext_t*) c)->uc_mcontext.gregs[REG_RIP]);
}

template<typename F>
__attribute__((noinline)) void traced(F f)
{
    trace = steps = 0;
    tracing = true;
#ifndef COVER
    asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
#endif
    f();
#ifndef COVER
    asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
#endif
    tracing = false;
}

alignas(64) static u8 key[4096], text[8192], given[4096], out[8192], own[64], object[8192], other[8192];
static error err;
static volatile bool sink;
using blocks32 = size_t (*)(size_t, const uint32_t*, u8*, const u8*);

int main()
{
#ifndef COVER
    struct sigaction s{};
    s.sa_sigaction = on;
    s.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &s, nullptr);
#endif
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string f, ks, ps, gs;
        size_t n, m;
        int fin;
        in >> f >> ks >> ps >> n >> m >> fin >> gs;
        auto put = [](u8* to, const std::string& w) { auto d = get(w); if (d.n) memcpy(to, d.p, d.n); return d.n; };
        auto kn = put(key, ks);
        put(text, ps);
        auto gn = put(given, gs);
        auto h = object;
        if (f == "verify" || f == "open")
        {
            // the tag given is the right one with some bits flipped
            uint8_t flip[4096];
            memcpy(flip, given, gn);
            memset(given, 0, sizeof(given));
            ct_verify((api_t*) h, key, text, n, m, given, gn, out, &err, own);
            for (size_t i = 0; i < gn; i++) given[i] = flip[i] ^ (i < 16 ? own[i] : 0);
        }
        for (int round = 0; round < 2; round++)
        {
            memset(object, 0, sizeof(object));
            memset(out, 0, sizeof(out));
            // the assembly kernels work on state, source and destination
            memcpy(other, key, sizeof(key));
#define X(t) if (f == #t) traced([&] { t##_use((t##_t*) h, key, kn, text, n, m, fin, out); });
            X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha512_224) X(sha512_256) X(poly) X(hmac1) X(hmac256) X(hmac512) X(chacha) X(aead) X(hkdf) X(pbkdf)
            X(api_sha256) X(api_poly) X(api_hmac) X(api_chacha) X(api_aead) X(api_hkdf) X(api_pbkdf)
            if (f == "match") traced([&] { sink = ct_match(text, given, n); });
            if (f == "match_char") traced([&] { sink = ct_match_char((const char*) text, given, n); });
            if (f == "match_word") traced([&] { sink = ct_match_word((const uint32_t*) text, given, n); });
            if (f == "match_view") traced([&] { sink = ct_match_view(text, n, given, m); });
            if (f == "match_mixed") traced([&] { sink = ct_match_mixed(text, n, (const char*) given, m); });
            if (f == "verify") traced([&] { ct_verify((api_t*) h, key, text, n, m, given, gn, out, &err, own); });
            if (f == "open") traced([&] { ct_open((api_t*) h, key, text, n, m, given, gn, out, &err, own); });
            namespace D = primitive::detail;
            if (f == "ssse_3_transform") traced([&] { D::cipher_chacha_impl_hw_x86_64_ssse_3_ietf::transform(n, (uint32_t*) other, out, text); });
            if (f == "ssse_3_generate") traced([&] { D::cipher_chacha_impl_hw_x86_64_ssse_3_ietf::generate(n, (uint32_t*) other, out); });
            if (f == "avx_2_transform") traced([&] { D::cipher_chacha_impl_hw_x86_64_avx_2_ietf::transform(n, (uint32_t*) other, out, text); });
            if (f == "avx_2_generate") traced([&] { D::cipher_chacha_impl_hw_x86_64_avx_2_ietf::generate(n, (uint32_t*) other, out); });
            if (f == "sha1_ni") traced([&] { D::hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, (uint32_t*) other, text); });
            if (f == "sha256_ni") traced([&] { D::hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, (uint32_t*) other, text); });
        }
        printf("%llx %llu\n", (unsigned long long) trace, (unsigned long long) steps);
    }
}
