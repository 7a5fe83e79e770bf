// Stand-ins for the assembly routines: cpuid answers from the environment, backends that only record their name.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" char verif_log[65536];
char verif_log[65536];
static uint64_t rec(const char* s, uint64_t r) { if (!strstr(verif_log, s)) { strcat(verif_log, " "); strcat(verif_log, s); } return r; }

// answers: MILO_CPUID = "leaf.subleaf:eax,ebx,ecx,edx;..."
extern "C" void milo_internal_arch_x86_64_cpuid(uint32_t* p, uint32_t l, uint32_t s)
{
    memset(p, 0, 16);
    const char* e = getenv("MILO_CPUID");
    while (e && *e) {
        unsigned a, b, c[4];
        if (sscanf(e, "%u.%u:%u,%u,%u,%u", &a, &b, c, c + 1, c + 2, c + 3) == 6 && a == l && b == s)
            for (int i = 0; i < 4; i++) p[i] = c[i];
        e = strchr(e, ';');
        if (e) e++;
    }
}
extern "C" {
using u64 = uint64_t; using u8 = uint8_t; using u32 = uint32_t;
u64 milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_transform(u64, u64 n, const u32*, u8*, const u8*) { return rec("milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_transform", n * 4); }
u64 milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_generate(u64, u64 n, const u32*, u8*) { return rec("milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_generate", n * 4); }
u64 milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_transform(u64, u64 n, const u32*, u8*, const u8*) { return rec("milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_transform", n * 8); }
u64 milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_generate(u64, u64 n, const u32*, u8*) { return rec("milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_generate", n * 8); }
u64 milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks(u64, u32*, const u8*) { return rec("milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks", 0); }
u64 milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks(u64, u32*, const u8*) { return rec("milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks", 0); }
}

