// Stand-ins for a hash and for a PRF: every member is an external function that the symbolic
// executor interprets as operations on abstract messages.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void vh_init(void* h);
void vh_update(void* h, const void* p, size_t n);
void vh_final(void* h);
size_t vh_digest(const void* h, void* p, size_t n, size_t d);
void vm_init(void* h, const void* k, size_t n);
void vm_update(void* h, const void* p, size_t n);
void vm_final(void* h);
size_t vm_digest(const void* h, void* p, size_t n, size_t d);
void vc_init(void* h, const void* k, size_t kn, const void* i, size_t in);
size_t vc_encrypt(void* h, const void* p, size_t n, void* d);
size_t vc_decrypt(void* h, const void* p, size_t n, void* d);
}

template<size_t t_block, size_t t_digest>
class vhash
{
public:
    struct properties { using hash = int; };
    static constexpr size_t block_size = t_block;
    static constexpr size_t digest_size = t_digest;
private:
    uint64_t m_handle = 0;
public:
    constexpr void initialize() noexcept { vh_init(&m_handle); }
    template<milo::meta::byte T> constexpr void update(const T* p, size_t n) noexcept { vh_update(&m_handle, p, n); }
    constexpr void finalize() noexcept { vh_final(&m_handle); }
    template<milo::meta::byte T> constexpr size_t digest(T* p, size_t n = digest_size) const noexcept { return vh_digest(&m_handle, p, n, t_digest); }
};

template<size_t t_digest, size_t t_key = 0>
class vmac
{
public:
    struct properties { using mac = int; using mac_hmac = int; using mac_poly_1305 = int; using prf = int; };
    static constexpr size_t key_size = t_key;
    static constexpr size_t digest_size = t_digest;
private:
    uint64_t m_handle = 0;
public:
    template<milo::meta::byte T> constexpr void initialize(const T* p, size_t n) noexcept { vm_init(&m_handle, p, n); }
    template<milo::meta::byte T> constexpr void update(const T* p, size_t n) noexcept { vm_update(&m_handle, p, n); }
    constexpr void finalize() noexcept { vm_final(&m_handle); }
    template<milo::meta::byte T> constexpr size_t digest(T* p, size_t n = digest_size) const noexcept { return vm_digest(&m_handle, p, n, t_digest); }
};

class vcipher
{
public:
    struct properties { using cipher = int; using cipher_stream = int; using cipher_chacha_20 = int; };
    static constexpr size_t key_size = 32;
    static constexpr size_t iv_size = 16;
    static constexpr size_t block_size = 64;
private:
    uint64_t m_handle = 0;
public:
    template<milo::meta::byte K, milo::meta::byte I> constexpr void initialize(const K* k, size_t kn, const I* i, size_t in) noexcept { vc_init(&m_handle, k, kn, i, in); }
    template<milo::meta::byte S, milo::meta::byte D> constexpr size_t encrypt(const S* p, size_t n, D* d) noexcept { return vc_encrypt(&m_handle, p, n, d); }
    template<milo::meta::byte S> constexpr size_t encrypt_size(const S*, size_t n) const noexcept { return n; }
    template<milo::meta::byte S, milo::meta::byte D> constexpr size_t decrypt(const S* p, size_t n, D* d) noexcept { return vc_decrypt(&m_handle, p, n, d); }
    template<milo::meta::byte S> constexpr size_t decrypt_size(const S*, size_t n) const noexcept { return n; }
};

extern "C" {
void vk_init(void* h, const void* k, size_t kn, const void* s, size_t sn, const void* i, size_t in, uint32_t it);
size_t vk_derive(void* h, void* p, size_t n);
size_t vx_encode(const void* p, size_t n, void* d);
size_t vx_encode_size(const void* p, size_t n);
size_t vx_decode(const void* p, size_t n, void* d, int* e);
size_t vx_decode_size(const void* p, size_t n);
}

class vhkdf
{
public:
    struct properties { using kdf = int; using kdf_hkdf = int; };
private:
    uint64_t m_handle = 0;
public:
    template<milo::meta::byte K, milo::meta::byte S, milo::meta::byte I>
    constexpr void initialize(const K* k, size_t kn, const S* s, size_t sn, const I* i, size_t in) noexcept { vk_init(&m_handle, k, kn, s, sn, i, in, 0); }
    template<milo::meta::byte T> constexpr size_t derive(T* p, size_t n) noexcept { return vk_derive(&m_handle, p, n); }
};

class vpbkdf
{
public:
    struct properties { using kdf = int; using kdf_pbkdf_2 = int; };
private:
    uint64_t m_handle = 0;
public:
    template<milo::meta::byte K, milo::meta::byte S>
    constexpr void initialize(const K* k, size_t kn, const S* s, size_t sn, uint32_t it) noexcept { vk_init(&m_handle, k, kn, s, sn, k, 0, it); }
    template<milo::meta::byte T> constexpr size_t derive(T* p, size_t n) noexcept { return vk_derive(&m_handle, p, n); }
};

// stand-in codec: error codes are those of the library
class vcodec
{
public:
    struct properties { using codec = int; };
    static constexpr size_t ratio_bytes_size = 1;
    static constexpr size_t ratio_chars_size = 2;
    template<milo::meta::byte S, milo::meta::byte D> static constexpr size_t encode(const S* p, size_t n, D* d) noexcept { return vx_encode(p, n, d); }
    template<milo::meta::byte S> static constexpr size_t encode_size(const S* p, size_t n) noexcept { return vx_encode_size(p, n); }
    template<milo::meta::byte S, milo::meta::byte D> static constexpr size_t decode(const S* p, size_t n, D* d, milo::error& e) noexcept
    {
        int c = 0;
        auto r = vx_decode(p, n, d, &c);
        e = c == 0 ? milo::error::none : milo::error::codec_base_64_decode;
        return r;
    }
    template<milo::meta::byte S> static constexpr size_t decode_size(const S* p, size_t n) noexcept { return vx_decode_size(p, n); }
};
