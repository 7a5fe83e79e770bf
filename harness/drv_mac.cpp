#include "drv.h"
#include "mac.cpp"
// I <key>   U <data>   F   D <size>   N (new object)

int main()
{
    std::string l;
    auto o = fresh<poly_t>();
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w[0] == "N") { o = fresh<poly_t>(); }
        if (w[0] == "I") { auto d = get(w[1]); o->initialize(d.p, d.n); }
        if (w[0] == "U") { auto d = get(w[1]); o->update(d.p, d.n); }
        if (w[0] == "F") o->finalize();
        if (w[0] == "C") o = recopy(o, w[1]);
        if (w[0] == "D") {
            size_t n = strtoull(w[1].c_str(), nullptr, 0), m = std::min<size_t>(n, 4096) + 16;
            auto d = (uint8_t*) malloc(m);
            memset(d, 0xa5, m);
            auto r = o->digest(d, n);
            printf("%zu %s\n", r, hex(d, m).c_str());
            free(d);
        }
    }
}
