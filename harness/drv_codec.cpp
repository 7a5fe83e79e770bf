// <function> <input>: result size, error code, bytes (the destination is exactly as large as the size query says)
#include "drv.h"
#include "codec.cpp"

int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        auto d = get(w[1]);
        auto f = w[0].substr(4);
        bool b = w[0].substr(0, 3) == "b16";
        int e = -1;
        auto es = b ? b16_encsize(d.p, d.n) : b64_encsize(d.p, d.n);
        auto ds = b ? b16_decsize((const char*) d.p, d.n) : b64_decsize((const char*) d.p, d.n);
        if (f == "sizes") { printf("%zu %zu\n", es, ds); continue; }
        auto cap = f.substr(0, 3) == "enc" ? es : ds;
        auto o = (uint8_t*) malloc(cap ? cap : 1);
        for (size_t i = 0; i < cap; i++) o[i] = 0xa5;
        auto ci = (const char*) d.p;
        auto co = (char*) o;
        size_t r = 0;
#define DO(N_)                                          \
    if (f == "enc") r = N_##_enc(d.p, d.n, co);         \
    else if (f == "encu") r = N_##_encu(ci, d.n, o);    \
    else if (f == "encc") r = N_##_encc(d.p, d.n, co);  \
    else if (f == "dec") r = N_##_dec(ci, d.n, o, &e);  \
    else if (f == "decu") r = N_##_decu(d.p, d.n, co, &e); \
    else if (f == "dect") r = N_##_dect(ci, d.n, o, &e); \
    else if (f == "decc") r = N_##_decc(ci, d.n, o, &e); \
    else if (f == "decct") r = N_##_decct(ci, d.n, o, &e);
        if (b) { DO(b16) } else { DO(b64) }
        printf("%zu %d %s\n", r, e, hex(o, r < cap ? r : cap).c_str());
    }
}
