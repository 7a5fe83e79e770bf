// The convenience interface over stand-in primitives.
#include <milo/internal.h>
#include "stub.h"
using stub_hash = vhash<64, 32>;
using stub_mac = vmac<32, 32>;
#define HASH stub_hash
#define MAC stub_mac
#define HKDF vhkdf
#define PBKDF vpbkdf
#define CIPHER vcipher
#define CODEC vcodec
#include "wrap_forms.h"
