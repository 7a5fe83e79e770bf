#include <milo/internal.h>
#include "drv.h"
#include <milo/option.h>
#include <milo/container.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace milo;
using raw_t = primitive::aead::chacha_20_poly_1305<>;
using apie_t = primitive::aead::apie<raw_t>;
using view = container::view_dynamic<const uint8_t>;


static view v(const data& d) { return view(d.p, d.n); }

// many windows onto the same few pages: room for huge outputs nobody reads
static uint8_t* window(size_t n)
{
    const size_t W = 64 << 20;
    int fd = memfd_create("w", 0);
    if (ftruncate(fd, W)) return nullptr;
    auto p = (uint8_t*) mmap(nullptr, n + W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < n; i += W)
        mmap(p + i, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    return p;
}

template<class T>
static bool common(T* o, const std::vector<std::string>& w)
{
    if (w[0] == "I") { auto a = get(w[1]), b = get(w[2]); o->initialize(a.p, a.n, b.p, b.n); }
    else if (w[0] == "A") { auto a = get(w[1]); o->aad(a.p, a.n); }
    else if (w[0] == "E" || w[0] == "X") {
        auto a = get(w[1]);
        if (w[1][0] == 'z') {
            auto d = window(a.n);
            printf("%zu\n", w[0] == "E" ? o->encrypt(a.p, a.n, d) : o->decrypt(a.p, a.n, d));
            return true;
        }
        auto d = w.size() > 2 ? (uint8_t*) a.p : (uint8_t*) malloc(a.n ? a.n : 1);
        auto r = w[0] == "E" ? o->encrypt(a.p, a.n, d) : o->decrypt(a.p, a.n, d);
        printf("%zu %s\n", r, hex(d, a.n).c_str());
    } else if (w[0] == "D") {
        size_t n = strtoull(w[1].c_str(), nullptr, 0), m = std::min<size_t>(n, 4096) + 16;
        auto d = (uint8_t*) malloc(m);
        memset(d, 0xa5, m);
        auto r = o->digest(d, n);
        printf("%zu %s\n", r, hex(d, m).c_str());
        free(d);
    } else
        return false;
    return true;
}

static void result(const error& e) { printf("%s %d\n", e ? "err" : "ok", (int) error::code(e)); }

template<class F>
static void guarded(F f)
{
    try { f(); } catch (const error& e) { printf("throw %d\n", (int) error::code(e)); } catch (...) { printf("other exception\n"); }
}

// RT <aad size> <text size>...: encrypt zeros, decrypt the result with a second object, compare the tags
template<class T>
static void big(const std::vector<std::string>& w, bool raw)
{
    int lock = open("/tmp/milo-verif-big.lock", O_CREAT | O_RDWR, 0600);
    flock(lock, LOCK_EX);
    uint8_t k[32] = {1}, iv[12] = {2}, t1[16], t2[16];
    auto e = new T, d = new T;
    e->initialize(k, 32, iv, 12);
    d->initialize(k, 32, iv, 12);
    auto a = get("z:" + w[1]);
    e->aad(a.p, a.n);
    d->aad(a.p, a.n);
    if constexpr (requires { e->aadover(); }) { e->aadover(); d->aadover(); }
    for (size_t i = 2; i < w.size(); i++) {
        auto s = get("z:" + w[i]);
        auto c = (uint8_t*) mmap(nullptr, s.n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        e->encrypt(s.p, s.n, c);
        d->decrypt(c, s.n, window(s.n));
        munmap(c, s.n + 1);
    }
    if constexpr (requires { e->aadover(); }) { e->finalize(); d->finalize(); }
    e->digest(t1);
    d->digest(t2);
    printf("%s %s %s\n", memcmp(t1, t2, 16) ? "differ" : "same", hex(t1, 16).c_str(), hex(t2, 16).c_str());
}

int main()
{
    std::string l;
    auto r = fresh<raw_t>();
    auto a = fresh<apie_t>();
    bool raw = true;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w.empty()) continue;
        if (w[0] == "raw") { raw = true; r = fresh<raw_t>(); continue; }
        if (w[0] == "apie") { raw = false; a = fresh<apie_t>(); continue; }
        if (raw ? common(r, w) : common(a, w)) continue;
        if (w[0] == "C") { if (raw) r = recopy(r, w[1]); else a = recopy(a, w[1]); }
        if (w[0] == "RT") { if (raw) big<raw_t>(w, raw); else big<apie_t>(w, raw); }
        if (w[0] == "O" && raw) r->aadover();
        if (w[0] == "F" && raw) r->finalize();
        if (w[0] == "V") {
            auto d = get(w[2]);
            error e(error::size);
            auto& f = w[1];
            guarded([&] {
                if (f == "pe") { a->verify(d.p, d.n, e); result(e); }
                else if (f == "pec") { a->verify((const char*) d.p, d.n, e); result(e); }
                else if (f == "ce") { a->verify(v(d), e); result(e); }
                else if (f == "px") { a->verify(d.p, d.n); printf("ok 0\n"); }
                else if (f == "pxc") { a->verify((const char*) d.p, d.n); printf("ok 0\n"); }
                else if (f == "cx") { a->verify(v(d)); printf("ok 0\n"); }
            });
        }
        // ENC form key iv aad plaintext
        if (w[0] == "ENC") {
            auto k = get(w[2]), i = get(w[3]), d = get(w[4]), p = get(w[5]);
            auto& f = w[1];
            std::string c, t;
            if (f == "p") {
                auto o = (uint8_t*) malloc(p.n ? p.n : 1);
                uint8_t tag[16];
                primitive::aead::encrypt<raw_t>(k.p, k.n, i.p, i.n, d.p, d.n, p.p, p.n, o, tag);
                c = hex(o, p.n); t = hex(tag, 16);
            } else if (f == "d") {
                auto [o, tag] = primitive::aead::encrypt<raw_t>(v(k), v(i), v(d), v(p));
                c = hex(o.data(), o.size()); t = hex(tag.data(), 16);
            } else {
                container::bytes_static<5> o{};
                container::bytes_static<16> tag{};
                primitive::aead::encrypt<raw_t>(v(k), v(i), v(d), v(p), o, tag);
                c = hex(o.data(), 5); t = hex(tag.data(), 16);
            }
            printf("%s %s\n", c.c_str(), t.c_str());
        }
        // DEC form key iv aad ciphertext tag
        if (w[0] == "DEC") {
            auto k = get(w[2]), i = get(w[3]), d = get(w[4]), c = get(w[5]), t = get(w[6]);
            auto& f = w[1];
            error e(error::size);
            auto p = (uint8_t*) malloc(c.n + 16);
            memset(p, 0xa5, c.n + 16);
            container::bytes_static<5> s{};
            container::bytes_dynamic y;
            guarded([&] {
                if (f == "pe") { primitive::aead::decrypt<raw_t>(k.p, k.n, i.p, i.n, d.p, d.n, c.p, c.n, t.p, t.n, p, e); result(e); }
                if (f == "px") { primitive::aead::decrypt<raw_t>(k.p, k.n, i.p, i.n, d.p, d.n, c.p, c.n, t.p, t.n, p); printf("ok 0\n"); }
                if (f == "se") { primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t), s, e); result(e); }
                if (f == "sx") { primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t), s); printf("ok 0\n"); }
                if (f == "re") { primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t), y, e); result(e); }
                if (f == "rx") { primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t), y); printf("ok 0\n"); }
                if (f == "de") { y = primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t), e); result(e); }
                if (f == "dx") { y = primitive::aead::decrypt<raw_t>(v(k), v(i), v(d), v(c), v(t)); printf("ok 0\n"); }
            });
            if (f[0] == 's') printf("%s\n", hex(s.data(), 5).c_str());
            else if (f[0] == 'p') printf("%s\n", hex(p, c.n + 16).c_str());
            else printf("%s\n", hex(y.data(), y.size()).c_str());
        }
    }
}
