// Feature detection and backend selection.
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/option.h>

using namespace milo;
namespace pd = primitive::detail;
using ise = internal::arch_x86_64_ise;

#define FEAT(x) extern "C" bool feat_##x() { return ise::x; }
FEAT(sse_1) FEAT(sse_2) FEAT(sse_3) FEAT(ssse_3) FEAT(sse_4_1) FEAT(sse_4_2) FEAT(sse_4) FEAT(avx_1) FEAT(avx_2) FEAT(sha_1) FEAT(sha_2)

// use: state prepared, one message processed
#define USE_HASH(name, T) extern "C" void use_##name(const uint8_t* p, size_t n, uint8_t* d) { T h; h.update(p, n); h.finalize(); h.digest(d); }
#define USE_CIPHER(name, T) extern "C" void use_##name(const uint8_t* p, size_t n, uint8_t* d) { T c; c.initialize(p, 32, p, 16); c.encrypt(p, n, d); }
#define USE_MAC(name, T) extern "C" void use_##name(const uint8_t* p, size_t n, uint8_t* d) { T c; c.initialize(p, 32); c.update(p, n); c.finalize(); c.digest(d); }
#define USE_AEAD(name, T) extern "C" void use_##name(const uint8_t* p, size_t n, uint8_t* d) { T c; c.initialize(p, 32, p, 12); c.encrypt(p, n, d); c.finalize(); }

using ssse3 = pd::cipher_chacha_impl_hw_x86_64_ssse_3_ietf;
using avx2 = pd::cipher_chacha_impl_hw_x86_64_avx_2_ietf;
using sw = pd::cipher_chacha_impl_sw_ietf;
using ni1 = pd::hash_sha_1_160_impl_hw_x86_64_ni;
using ni2 = pd::hash_sha_2_256_impl_hw_x86_64_ni;

USE_HASH(sha1, primitive::hash::sha_1_160<>)
USE_HASH(sha224, primitive::hash::sha_2_224<>)
USE_HASH(sha256, primitive::hash::sha_2_256<>)
USE_HASH(sha384, primitive::hash::sha_2_384<>)
USE_HASH(sha512, primitive::hash::sha_2_512<>)
USE_CIPHER(chacha20, primitive::cipher::chacha_20<>)
using hmac_sha1 = primitive::mac::hmac<primitive::hash::sha_1_160<>>;
USE_MAC(hmac_sha1, hmac_sha1)
using aead_t = primitive::aead::chacha_20_poly_1305<>;
USE_AEAD(aead, aead_t)

// preferences and overrides
USE_CIPHER(chacha20_prefer_ssse_3, primitive::cipher::chacha_20<option::impl_runtime<ssse3>>)
USE_CIPHER(chacha20_prefer_avx_2, primitive::cipher::chacha_20<option::impl_runtime<avx2>>)
USE_CIPHER(chacha20_prefer_sw, primitive::cipher::chacha_20<option::impl_runtime<sw>>)
USE_HASH(sha1_prefer_sw, primitive::hash::sha_1_160<option::impl_runtime<pd::hash_sha_1_160_impl_sw>>)
USE_HASH(sha1_prefer_ni, primitive::hash::sha_1_160<option::impl_runtime<ni1>>)
USE_HASH(sha256_prefer_ni, primitive::hash::sha_2_256<option::impl_runtime<ni2>>)
USE_HASH(sha256_prefer_sw, primitive::hash::sha_2_256<option::impl_runtime<pd::hash_sha_2_256_impl_sw>>)
USE_CIPHER(chacha20_enforce_ssse_3, primitive::cipher::chacha_20<option::impl_enforce<ssse3>>)
USE_CIPHER(chacha20_enforce_avx_2, primitive::cipher::chacha_20<option::impl_enforce<avx2>>)
USE_CIPHER(chacha20_enforce_sw, primitive::cipher::chacha_20<option::impl_enforce<sw>>)
USE_HASH(sha1_enforce_ni, primitive::hash::sha_1_160<option::impl_enforce<ni1>>)
USE_HASH(sha1_enforce_sw, primitive::hash::sha_1_160<option::impl_enforce<pd::hash_sha_1_160_impl_sw>>)
USE_HASH(sha256_enforce_ni, primitive::hash::sha_2_256<option::impl_enforce<ni2>>)
USE_HASH(sha256_enforce_sw, primitive::hash::sha_2_256<option::impl_enforce<pd::hash_sha_2_256_impl_sw>>)

// runs the cpuid wrapper the library uses
extern "C" void call_cpuid(uint32_t* p, uint32_t l, uint32_t s) { internal::arch_x86_64_cpuid(p, l, s); }
extern "C" void call_cpuid1(uint32_t* p, uint32_t l) { internal::arch_x86_64_cpuid(p, l); }
