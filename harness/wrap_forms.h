// Every form of the convenience interface, as functions of one signature:
// key, salt or nonce, message or input, output area, requested size, count.
// HASH, MAC, HKDF, PBKDF, CIPHER, CODEC, AEAD are defined by the including unit (digests of 32 bytes).
#pragma once
#include <cstring>
#include <milo/option.h>
#include <milo/container.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>

namespace w
{
    using namespace milo;
    namespace hs = milo::primitive::hash;
    namespace mc = milo::primitive::mac;
    namespace kd = milo::primitive::kdf;
    namespace cp = milo::primitive::cipher;
    namespace cd = milo::primitive::codec;
    using u8 = uint8_t;
    using view = container::view_dynamic<const u8>;
    using cview = container::view_dynamic<const char>;
    using out_view = container::view_dynamic<u8>;
    using vec = container::bytes_dynamic;
    using cvec = container::chars_dynamic;
    template<size_t n> using arr = container::bytes_static<n>;
    template<size_t n> using carr = container::chars_static<n>;

    template<typename T> static inline size_t put(const T& v, u8* out)
    {
        for (size_t i = 0; i < v.size(); i++) out[i] = u8(v.data()[i]);
        return v.size();
    }
    // contents after a call that reported a size: the container's first bytes
    template<typename T> static inline size_t put(const T& v, size_t r, u8* out)
    {
        put(v, out);
        return r;
    }
    template<size_t n> static inline arr<n> filled() { arr<n> a; for (auto& x : a) x = 0x5a; return a; }
    template<size_t n> static inline carr<n> cfilled() { carr<n> a; for (auto& x : a) x = 0x5a; return a; }

    using H = hs::apie<HASH>;
    using M = mc::apie<MAC>;
    using HK = kd::apie<HKDF>;
    using PB = kd::apie<PBKDF>;
    using C = cp::apie<CIPHER>;
    using X = cd::apie<CODEC>;
}

#ifndef FORM
#define FORM(name) extern "C" size_t name(const w::u8* k, size_t kn, const w::u8* s, size_t sn, const w::u8* m, size_t n, w::u8* out, size_t dn, uint32_t it)
#endif
#define CH(p) reinterpret_cast<const char*>(p)
#define COUT reinterpret_cast<char*>(out)

// ------------------------------------------------------------------ hash

FORM(h_ptr) { w::H o; o.update(m, n); return o.digest(out, dn); }
FORM(h_ptrd) { w::H o; o.update(m, n); return o.digest(out); }
FORM(h_chr) { w::H o; o.update(CH(m), n); return o.digest(COUT, dn); }
FORM(h_vec) { w::H o; o.update(w::view(m, n)); w::vec v; auto r = o.digest(v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(h_vecd) { w::H o; o.update(w::view(m, n)); w::vec v; auto r = o.digest(v); return v.size() == r ? w::put(v, out) : 9999; }
FORM(h_a16) { w::H o; o.update(w::cview(CH(m), n)); auto v = w::filled<16>(); return w::put(v, o.digest(v, dn), out); }
FORM(h_a40) { w::H o; o.update(w::view(m, n)); auto v = w::filled<40>(); return w::put(v, o.digest(v, dn), out); }
FORM(h_a40d) { w::H o; o.update(w::view(m, n)); auto v = w::filled<40>(); return w::put(v, o.digest(v), out); }
FORM(h_span) { w::H o; o.update(m, n); w::out_view v(out, sn); return o.digest(v, dn); }
FORM(h_ret) { w::H o; o.update(m, n); return w::put(o.digest(dn), out); }
FORM(h_retc) { w::H o; o.update(m, n); return w::put(o.digest<w::cvec>(dn), out); }
FORM(h_retd) { w::H o; o.update(m, n); return w::put(o.digest(), out); }
FORM(h_ret20) { w::H o; o.update(m, n); return w::put(o.digest<w::arr<20>>(), out); }
FORM(h_two) { w::H o; o.update(m, n); w::u8 t[32]; o.digest(t, 32); return o.digest(out, dn); }
FORM(h_twoc) { w::H o; o.update(m, n); auto t = o.digest(); (void) t; w::vec v; o.digest(v, dn); return w::put(v, out); }
FORM(h_re) { w::H o; o.update(k, kn); w::u8 t[32]; o.digest(t, 32); o.initialize(); o.update(m, n); return o.digest(out, dn); }
FORM(h_rea) { w::H o; o.update(k, kn); o.initialize(); o.update(m, n); return o.digest(out, dn); }
FORM(h_copy) { w::H o; o.update(k, kn); w::H c(o); o.update(s, sn); w::u8 t[32]; o.digest(t, 32); c.update(m, n); return c.digest(out, dn); }
FORM(h_copyo) { w::H o; o.update(k, kn); w::H c(o); c.update(s, sn); w::u8 t[32]; c.digest(t, 32); o.update(m, n); return o.digest(out, dn); }
FORM(h_assign) { w::H o; o.update(k, kn); w::H c; c.update(s, sn); w::u8 t[32]; c.digest(t, 32); c = o; o.initialize(); c.update(m, n); return c.digest(out, dn); }
FORM(h_move) { w::H o; o.update(k, kn); w::H c(static_cast<w::H&&>(o)); c.update(m, n); return c.digest(out, dn); }
FORM(h_copyd) { w::H o; o.update(m, n); w::u8 t[32]; o.digest(t, 32); w::H c(o); o.initialize(); return c.digest(out, dn); }
FORM(h_1p) { return w::hs::digest<HASH>(m, n, out, dn); }
FORM(h_1pd) { return w::hs::digest<HASH>(m, n, out); }
FORM(h_1v) { w::vec v; auto r = w::hs::digest<HASH>(w::view(m, n), v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(h_1vd) { w::vec v; w::hs::digest<HASH>(w::view(m, n), v); return w::put(v, out); }
FORM(h_1a) { auto v = w::filled<16>(); return w::put(v, w::hs::digest<HASH>(w::view(m, n), v, dn), out); }
FORM(h_1r) { return w::put(w::hs::digest<HASH>(w::view(m, n), dn), out); }
FORM(h_1rd) { return w::put(w::hs::digest<HASH>(w::view(m, n)), out); }
FORM(h_1r20) { return w::put(w::hs::digest<HASH, w::arr<20>>(w::view(m, n)), out); }

// ------------------------------------------------------------------ MAC

FORM(m_ptr) { w::M o(k, kn); o.update(m, n); return o.digest(out, dn); }
FORM(m_ctorc) { w::M o(w::view(k, kn)); o.update(CH(m), n); return o.digest(COUT, dn); }
FORM(m_init) { w::M o; o.initialize(k, kn); o.update(m, n); return o.digest(out); }
FORM(m_initc) { w::M o; o.initialize(w::cview(CH(k), kn)); o.update(w::view(m, n)); w::vec v; auto r = o.digest(v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(m_vecd) { w::M o(k, kn); o.update(m, n); w::vec v; o.digest(v); return w::put(v, out); }
FORM(m_a16) { w::M o(k, kn); o.update(m, n); auto v = w::filled<16>(); return w::put(v, o.digest(v, dn), out); }
FORM(m_a40) { w::M o(k, kn); o.update(m, n); auto v = w::filled<40>(); return w::put(v, o.digest(v, dn), out); }
FORM(m_span) { w::M o(k, kn); o.update(m, n); w::out_view v(out, sn); return o.digest(v, dn); }
FORM(m_ret) { w::M o(k, kn); o.update(m, n); return w::put(o.digest(dn), out); }
FORM(m_retd) { w::M o(k, kn); o.update(m, n); return w::put(o.digest(), out); }
FORM(m_ret20) { w::M o(k, kn); o.update(m, n); return w::put(o.digest<w::arr<20>>(), out); }
FORM(m_two) { w::M o(k, kn); o.update(m, n); w::u8 t[32]; o.digest(t, 32); return o.digest(out, dn); }
FORM(m_re) { w::M o(s, sn); o.update(m, n); w::u8 t[32]; o.digest(t, 32); o.initialize(k, kn); o.update(m, n); return o.digest(out, dn); }
FORM(m_rea) { w::M o(s, sn); o.update(m, n); o.initialize(k, kn); o.update(m, n); return o.digest(out, dn); }
FORM(m_copy) { w::M o(k, kn); w::M c(o); o.update(s, sn); w::u8 t[32]; o.digest(t, 32); c.update(m, n); return c.digest(out, dn); }
FORM(m_copyo) { w::M o(k, kn); w::M c(o); c.update(s, sn); w::u8 t[32]; c.digest(t, 32); o.update(m, n); return o.digest(out, dn); }
FORM(m_assign) { w::M o(k, kn); w::M c(s, sn); w::u8 t[32]; c.digest(t, 32); c = o; o.initialize(s, sn); c.update(m, n); return c.digest(out, dn); }
FORM(m_copyd) { w::M o(k, kn); o.update(m, n); w::u8 t[32]; o.digest(t, 32); w::M c(o); o.initialize(s, sn); return c.digest(out, dn); }
FORM(m_1p) { return w::mc::digest<MAC>(k, kn, m, n, out, dn); }
FORM(m_1pd) { return w::mc::digest<MAC>(k, kn, m, n, out); }
FORM(m_1v) { w::vec v; auto r = w::mc::digest<MAC>(w::view(k, kn), w::view(m, n), v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(m_1a) { auto v = w::filled<16>(); return w::put(v, w::mc::digest<MAC>(w::view(k, kn), w::cview(CH(m), n), v, dn), out); }
FORM(m_1r) { return w::put(w::mc::digest<MAC>(w::view(k, kn), w::view(m, n), dn), out); }
FORM(m_1rd) { return w::put(w::mc::digest<MAC>(w::view(k, kn), w::view(m, n)), out); }
FORM(m_1r20) { return w::put(w::mc::digest<MAC, w::arr<20>>(w::view(k, kn), w::view(m, n)), out); }

// ------------------------------------------------------------------ HKDF

FORM(k_ctor) { w::HK o(k, kn, s, sn, m, n); return o.derive(out, dn); }
FORM(k_ctorc) { w::view a(k, kn), b(s, sn), c(m, n); w::HK o(a, b, c); return o.derive(COUT, dn); }
FORM(k_init) { w::HK o; o.initialize(k, kn, s, sn, m, n); return o.derive(out, dn); }
FORM(k_initc) { w::view a(k, kn), b(s, sn), c(m, n); w::HK o; o.initialize(a, b, c); w::vec v; auto r = o.derive(v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(k_a16) { w::HK o(k, kn, s, sn, m, n); auto v = w::filled<16>(); return w::put(v, o.derive(v, dn), out); }
FORM(k_span) { w::HK o(k, kn, s, sn, m, n); w::out_view v(out, 24); return o.derive(v, dn); }
FORM(k_ret) { w::HK o(k, kn, s, sn, m, n); return w::put(o.derive(dn), out); }
FORM(k_retc) { w::HK o(k, kn, s, sn, m, n); return w::put(o.derive<w::cvec>(dn), out); }
FORM(k_ret20) { w::HK o(k, kn, s, sn, m, n); return w::put(o.derive<w::arr<20>>(), out); }
FORM(k_two) { w::HK o(k, kn, s, sn, m, n); auto v = w::filled<8>(); o.derive(v, 8); w::put(v, out); return 8 + o.derive(out + 8, dn); }
FORM(k_re) { w::HK o(s, sn, k, kn, m, n); w::u8 t[8]; o.derive(t, 8); o.initialize(k, kn, s, sn, m, n); return o.derive(out, dn); }
FORM(k_copy) { w::HK o(k, kn, s, sn, m, n); o.derive(out, 8); w::HK c(o); w::u8 t[8]; o.derive(t, 8); return 8 + c.derive(out + 8, dn); }
FORM(k_assign) { w::HK o(k, kn, s, sn, m, n); o.derive(out, 8); w::HK c(s, sn, k, kn, m, n); c = o; o.initialize(m, n, m, n, m, n); return 8 + c.derive(out + 8, dn); }
FORM(k_1p) { return w::kd::derive<HKDF>(k, kn, s, sn, m, n, out, dn); }
FORM(k_1v) { w::vec v; auto r = w::kd::derive<HKDF>(w::view(k, kn), w::view(s, sn), w::view(m, n), v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(k_1a) { auto v = w::filled<16>(); return w::put(v, w::kd::derive<HKDF>(w::view(k, kn), w::view(s, sn), w::view(m, n), v, dn), out); }
FORM(k_1r) { return w::put(w::kd::derive<HKDF>(w::view(k, kn), w::view(s, sn), w::view(m, n), dn), out); }
FORM(k_1r20) { return w::put(w::kd::derive<HKDF, w::arr<20>>(w::view(k, kn), w::view(s, sn), w::view(m, n)), out); }

// ------------------------------------------------------------------ PBKDF2

FORM(p_ctor) { w::PB o(k, kn, s, sn, it); return o.derive(out, dn); }
FORM(p_ctorc) { w::view a(k, kn), b(s, sn); w::PB o(a, b, it); return o.derive(COUT, dn); }
FORM(p_init) { w::PB o; o.initialize(k, kn, s, sn, it); return o.derive(out, dn); }
FORM(p_initc) { w::view a(k, kn), b(s, sn); w::PB o; o.initialize(a, b, it); w::vec v; auto r = o.derive(v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(p_a16) { w::PB o(k, kn, s, sn, it); auto v = w::filled<16>(); return w::put(v, o.derive(v, dn), out); }
FORM(p_ret) { w::PB o(k, kn, s, sn, it); return w::put(o.derive(dn), out); }
FORM(p_ret20) { w::PB o(k, kn, s, sn, it); return w::put(o.derive<w::arr<20>>(), out); }
FORM(p_two) { w::PB o(k, kn, s, sn, it); auto v = w::filled<8>(); o.derive(v, 8); w::put(v, out); return 8 + o.derive(out + 8, dn); }
FORM(p_re) { w::PB o(s, sn, k, kn, 3); w::u8 t[8]; o.derive(t, 8); o.initialize(k, kn, s, sn, it); return o.derive(out, dn); }
FORM(p_copy) { w::PB o(k, kn, s, sn, it); o.derive(out, 8); w::PB c(o); w::u8 t[8]; o.derive(t, 8); return 8 + c.derive(out + 8, dn); }
FORM(p_1p) { return w::kd::derive<PBKDF>(k, kn, s, sn, it, out, dn); }
FORM(p_1v) { w::vec v; auto r = w::kd::derive<PBKDF>(w::view(k, kn), w::view(s, sn), it, v, dn); return v.size() == r ? w::put(v, out) : 9999; }
FORM(p_1a) { auto v = w::filled<16>(); return w::put(v, w::kd::derive<PBKDF>(w::view(k, kn), w::view(s, sn), it, v, dn), out); }
FORM(p_1r) { return w::put(w::kd::derive<PBKDF>(w::view(k, kn), w::view(s, sn), it, dn), out); }
FORM(p_1r20) { return w::put(w::kd::derive<PBKDF, w::arr<20>>(w::view(k, kn), w::view(s, sn), it), out); }

// ------------------------------------------------------------------ cipher: key k, nonce s, input m

#define CIPHER_FORMS(pre, op)                                                                                                                          \
    FORM(pre##_ptr) { w::C o(k, kn, s, sn); return o.op(m, n, out); }                                                                                  \
    FORM(pre##_chr) { w::view a(k, kn), b(s, sn); w::C o(a, b); return o.op(CH(m), n, COUT); }                                                         \
    FORM(pre##_init) { w::C o; o.initialize(k, kn, s, sn); return o.op(m, n, out); }                                                                   \
    FORM(pre##_initc) { w::view a(k, kn), b(s, sn); w::C o; o.initialize(a, b); w::vec v; auto r = o.op(w::view(m, n), v); return v.size() == r ? w::put(v, out) : 9999; } \
    FORM(pre##_ret) { w::C o(k, kn, s, sn); return w::put(o.op<w::vec>(w::view(m, n)), out); }                                                         \
    FORM(pre##_retc) { w::C o(k, kn, s, sn); return w::put(o.op<w::cvec>(w::view(m, n)), out); }                                                       \
    FORM(pre##_arr) { w::C o(k, kn, s, sn); auto v = w::filled<64>(); return w::put(v, o.op(w::view(m, n), v), out); }                                 \
    FORM(pre##_span) { w::C o(k, kn, s, sn); w::out_view v(out, n); return o.op(w::view(m, n), v); }                                                   \
    FORM(pre##_size) { w::C o; (void) it; for (size_t i = 0; i < 1; i++) out[i] = out[i]; return o.op##_size(m, n); }                                  \
    FORM(pre##_sizec) { w::C o; return o.op##_size(w::view(m, n)); }                                                                                   \
    FORM(pre##_two) { w::C o(k, kn, s, sn); auto r = o.op(m, 3, out); w::out_view v(out + 3, n - 3); return r + o.op(w::view(m + 3, n - 3), v); }      \
    FORM(pre##_re) { w::C o(s, sn, k, kn); w::u8 t[3]; o.op(m, 3, t); o.initialize(k, kn, s, sn); return o.op(m, n, out); }                            \
    FORM(pre##_copy) { w::C o(k, kn, s, sn); auto r = o.op(m, 3, out); w::C c(o); w::u8 t[3]; o.op(m, 3, t); return r + c.op(m + 3, n - 3, out + 3); } \
    FORM(pre##_copyo) { w::C o(k, kn, s, sn); auto r = o.op(m, 3, out); w::C c(o); w::u8 t[3]; c.op(m, 3, t); return r + o.op(m + 3, n - 3, out + 3); } \
    FORM(pre##_assign) { w::C o(k, kn, s, sn); auto r = o.op(m, 3, out); w::C c(s, sn, k, kn); c = o; o.initialize(s, sn, k, kn); return r + c.op(m + 3, n - 3, out + 3); } \
    FORM(pre##_1p) { return w::cp::op<CIPHER>(k, kn, s, sn, m, n, out); }                                                                              \
    FORM(pre##_1v) { w::vec v; auto r = w::cp::op<CIPHER>(w::view(k, kn), w::view(s, sn), w::view(m, n), v); return v.size() == r ? w::put(v, out) : 9999; } \
    FORM(pre##_1a) { auto v = w::filled<64>(); return w::put(v, w::cp::op<CIPHER>(w::view(k, kn), w::view(s, sn), w::view(m, n), v), out); }           \
    FORM(pre##_1r) { return w::put(w::cp::op<CIPHER>(w::view(k, kn), w::view(s, sn), w::view(m, n)), out); }

CIPHER_FORMS(e, encrypt)
CIPHER_FORMS(d, decrypt)

// ------------------------------------------------------------------ codec: input m; decoding: error code in the count's place is returned through s[0..3]

FORM(x_ptr) { return w::X::encode(m, n, out); }
FORM(x_chr) { return w::X::encode(CH(m), n, COUT); }
FORM(x_vec) { w::cvec v; auto r = w::X::encode(w::view(m, n), v); return v.size() == r ? w::put(v, out) : 9999; }
FORM(x_ret) { return w::put(w::X::encode<w::vec>(w::cview(CH(m), n)), out); }
FORM(x_arr) { auto v = w::cfilled<64>(); return w::put(v, w::X::encode(w::view(m, n), v), out); }
FORM(x_size) { return w::X::encode_size(m, n); }
FORM(x_sizec) { return w::X::encode_size(w::view(m, n)); }
FORM(x_1p) { return w::cd::encode<CODEC>(m, n, COUT); }
FORM(x_1v) { w::cvec v; auto r = w::cd::encode<CODEC>(w::view(m, n), v); return v.size() == r ? w::put(v, out) : 9999; }
FORM(x_1a) { auto v = w::cfilled<64>(); return w::put(v, w::cd::encode<CODEC>(w::view(m, n), v), out); }
FORM(x_1r) { return w::put(w::cd::encode<CODEC>(w::view(m, n)), out); }

#define ER(x) (*reinterpret_cast<int*>(const_cast<w::u8*>(s)) = int(milo::error::code(x)))
#define TRY(...) try { ER(milo::error()); __VA_ARGS__ } catch (const milo::error& x) { ER(x); return 7777; }
FORM(y_ptr) { milo::error e(milo::error::size); auto r = w::X::decode(CH(m), n, out, e); ER(e); return r; }
FORM(y_ptrx) { TRY(return w::X::decode(CH(m), n, out);) }
FORM(y_vec) { milo::error e(milo::error::size); w::vec v; auto r = w::X::decode(w::cview(CH(m), n), v, e); ER(e); return v.size() == r ? w::put(v, out) : 9999; }
FORM(y_vecx) { TRY(w::vec v; auto r = w::X::decode(w::cview(CH(m), n), v); return v.size() == r ? w::put(v, out) : 9999;) }
FORM(y_retx) { TRY(return w::put(w::X::decode<w::vec>(w::cview(CH(m), n)), out);) }
FORM(y_arr) { milo::error e(milo::error::size); auto v = w::filled<64>(); auto r = w::X::decode(w::view(m, n), v, e); ER(e); return w::put(v, r, out); }
FORM(y_arrx) { TRY(auto v = w::filled<64>(); auto r = w::X::decode(w::view(m, n), v); return w::put(v, r, out);) }
FORM(y_size) { return w::X::decode_size(CH(m), n); }
FORM(y_sizec) { return w::X::decode_size(w::view(m, n)); }
FORM(y_1p) { milo::error e(milo::error::size); auto r = w::cd::decode<CODEC>(CH(m), n, out, e); ER(e); return r; }
FORM(y_1px) { TRY(return w::cd::decode<CODEC>(CH(m), n, out);) }
FORM(y_1v) { milo::error e(milo::error::size); w::vec v; auto r = w::cd::decode<CODEC>(w::cview(CH(m), n), v, e); ER(e); return v.size() == r ? w::put(v, out) : 9999; }
FORM(y_1vx) { TRY(w::vec v; auto r = w::cd::decode<CODEC>(w::cview(CH(m), n), v); return v.size() == r ? w::put(v, out) : 9999;) }
FORM(y_1rx) { TRY(return w::put(w::cd::decode<CODEC>(w::cview(CH(m), n)), out);) }
