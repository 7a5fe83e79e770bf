// Replays: <function> <memory 1> <memory 2 or -> <arguments...>; the memories are exact heap blocks.
#define API static
#include "drv.h"
#include "memory.cpp"

static uint8_t* block(const std::string& s) { auto d = get(s); return (uint8_t*) d.p; }
static size_t bytes(const std::string& s) { return s == "-" ? 0 : s.size() / 2 - 1; }
static unsigned long long num(const std::string& s) { return strtoull(s.c_str(), nullptr, 0); }
template<typename T> static std::string val(T v) { return std::to_string((unsigned long long) (std::make_unsigned_t<T>) v); }

int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        auto w = words(l);
        if (w.size() < 3) continue;
        auto f = w[0];
        w.resize(8, "0");
        std::string r = "-";
        if (f.rfind("swap", 0) == 0 || f.rfind("bigof", 0) == 0 || f.rfind("littleof", 0) == 0 || f.rfind("rot", 0) == 0 || f == "min_u64" || f == "max_u64") {
#define E1(V) if (f == "bigof_" #V) r = val(bigof_##V((V) num(w[1]))); if (f == "littleof_" #V) r = val(littleof_##V((V) num(w[1]))); if (f == "swap_" #V) r = val(swap_##V((V) num(w[1])));
            ENDIANS(E1)
#define B1(V) if (f == "swapsw_" #V) r = val(swapsw_##V((V) num(w[1]))); if (f == "swapbi_" #V) r = val(swapbi_##V((V) num(w[1]))); \
    if (f == "rotl_" #V) r = val(rotl_##V((V) num(w[1]), num(w[2]))); if (f == "rotr_" #V) r = val(rotr_##V((V) num(w[1]), num(w[2])));
            BITSS(B1)
            if (f == "min_u64") r = val(min_u64(num(w[1]), num(w[2])));
            if (f == "max_u64") r = val(max_u64(num(w[1]), num(w[2])));
            printf("%s\n", r.c_str());
            continue;
        }
        auto p = block(w[1]);
        auto q = w[2] == "-" ? nullptr : block(w[2]);
        auto a = num(w[3]), b = num(w[4]), c = num(w[5]);
        (void) c;
#define A1(V, P) \
    if (f == "load_" #V "_" #P) r = val(load_##V##_##P((P*) p, a)); if (f == "load_be_" #V "_" #P) r = val(load_be_##V##_##P((P*) p, a)); if (f == "load_le_" #V "_" #P) r = val(load_le_##V##_##P((P*) p, a)); \
    if (f == "loadn_" #V "_" #P) r = val(loadn_##V##_##P((P*) p, a, b)); if (f == "loadn_be_" #V "_" #P) r = val(loadn_be_##V##_##P((P*) p, a, b)); if (f == "loadn_le_" #V "_" #P) r = val(loadn_le_##V##_##P((P*) p, a, b)); \
    if (f == "stor_" #V "_" #P) stor_##V##_##P((P*) p, a, (V) b); if (f == "stor_be_" #V "_" #P) stor_be_##V##_##P((P*) p, a, (V) b); if (f == "stor_le_" #V "_" #P) stor_le_##V##_##P((P*) p, a, (V) b); \
    if (f == "storn_" #V "_" #P) storn_##V##_##P((P*) p, a, (V) b, c); if (f == "storn_be_" #V "_" #P) storn_be_##V##_##P((P*) p, a, (V) b, c); if (f == "storn_le_" #V "_" #P) storn_le_##V##_##P((P*) p, a, (V) b, c);
        PAIRS(A1)
#define C1(D, S) if (f == "copy_" #D "_" #S) copy_##D##_##S((D*) p, (S*) q, a); \
    if (f == "init_" #D "_" #S) init_##D##_##S((D*) p, a, (S*) q, b); if (f == "init_be_" #D "_" #S) init_be_##D##_##S((D*) p, a, (S*) q, b); if (f == "init_le_" #D "_" #S) init_le_##D##_##S((D*) p, a, (S*) q, b); \
    if (f == "equal_" #D "_" #S) r = std::to_string((int) equal_##D##_##S((D*) p, (S*) q, a)); if (f == "match_" #D "_" #S) r = std::to_string((int) match_##D##_##S((D*) p, (S*) q, a)); \
    if (f == "xor_" #D "_" #S) xor_##D##_##S((D*) p, (S*) q, a);
        COPIES(C1)
#define CE1(D, S) if (f == "copy_be_" #D "_" #S) copy_be_##D##_##S((D*) p, (S*) q, a); if (f == "copy_le_" #D "_" #S) copy_le_##D##_##S((D*) p, (S*) q, a);
        COPIESE(CE1)
#define F1(P) if (f == "set_" #P) set_##P((P*) p, (u8) a, b); if (f == "zero_" #P) zero_##P((P*) p, a); if (f == "erase_" #P) erase_##P((P*) p, a); if (f == "erase1_" #P) erase1_##P((P*) p); \
    if (f == "zero5_" #P) zero5_##P((P(*)[5]) p); if (f == "erase5_" #P) erase5_##P((P(*)[5]) p); \
    if (f == "init5_" #P) init5_##P((P(*)[5]) p, q, a); if (f == "init5_be_" #P) init5_be_##P((P(*)[5]) p, q, a); if (f == "init5_le_" #P) init5_le_##P((P(*)[5]) p, q, a);
        FILLS(F1)
        if (f == "equal_container") r = std::to_string((int) equal_container(p, a, q, b));
        if (f == "match_container") r = std::to_string((int) match_container(p, a, q, b));
        if (f == "match_container_32") r = std::to_string((int) match_container_32((u32*) p, a, q, b));
        printf("%s %s %s\n", r.c_str(), hex(p, bytes(w[1])).c_str(), q ? hex(q, bytes(w[2])).c_str() : "-");
    }
}
