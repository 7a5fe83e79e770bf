// The block function of Poly1305.
#include <milo/primitive/mac/poly.h>

using namespace milo;

extern "C" {
void blk_poly(size_t n, const uint32_t* k, uint32_t* acc, uint32_t add, const uint8_t* p)
{
    primitive::detail::mac_poly_1305_impl_sw::process(n, k, acc, add, p);
}
}
