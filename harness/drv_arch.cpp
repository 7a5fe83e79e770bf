// Which backends run, and which features are reported, on a processor with given cpuid answers.
#include "arch.cpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" char verif_log[];
static uint8_t src[4096], dst[8192];
#define F(x) if (!strcmp(name, "feat_" #x)) { printf("%d\n", (int) feat_##x()); return 0; }
#define U(x) if (!strcmp(name, "use_" #x)) { use_##x(src, 1200, dst); printf("used%s\n", verif_log); return 0; }
int main(int argc, char** argv)
{
    const char* name = argv[1];
    F(sse_1) F(sse_2) F(sse_3) F(ssse_3) F(sse_4_1) F(sse_4_2) F(sse_4) F(avx_1) F(avx_2) F(sha_1) F(sha_2)
    U(sha1) U(sha224) U(sha256) U(sha384) U(sha512) U(chacha20) U(hmac_sha1) U(aead)
    U(chacha20_prefer_ssse_3) U(chacha20_prefer_avx_2) U(chacha20_prefer_sw) U(sha1_prefer_sw) U(sha1_prefer_ni) U(sha256_prefer_ni) U(sha256_prefer_sw)
    U(chacha20_enforce_ssse_3) U(chacha20_enforce_avx_2) U(chacha20_enforce_sw) U(sha1_enforce_ni) U(sha1_enforce_sw) U(sha256_enforce_ni) U(sha256_enforce_sw)
    return 3;
}
