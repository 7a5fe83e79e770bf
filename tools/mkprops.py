#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = "src/milo/primitive/"
D = P + "detail/"
I = "src/milo/internal/"
props = []

def add(id, title, statement, over, text, why, files, mech, state, observe):
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=False)))

hs = [("running hash value", "chaining value after the full blocks seen so far", "m_state"),
      ("partial block", "bytes of the message that do not fill a block yet", "m_buffer, m_buffer_size"),
      ("message length", "total bytes hashed so far", "m_processed_bytes")]

add("C01", "SHA-1 digests equal FIPS 180-4 for every message on every backend",
    "For every message of up to 2^61-1 bytes, delivered in any sequence of pieces, the SHA-1 digest equals the one FIPS 180-4 defines. This holds on the portable backend and on the SHA-NI backend alike, for any number of blocks handed to a backend at once.",
    ["inputs", "histories", "configurations"],
    "all message contents and lengths, all ways of splitting the message over update calls, both backends",
    "Test vectors sample a few lengths and contents on the one backend the test machine selects; rare carries, padding boundaries, length-counter widths and multi-block backend loops need every value.",
    [D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_1_160_impl_sw.h", D+"hash/sha/sha_1_160_impl_hw_x86_64.asm", D+"hash/sha/sha_1_160_impl_hw_x86_64.h", I+"update.h"],
    [("block compression", "sha_1_160_impl_sw.h blocks; sha_1_160_impl_hw_x86_64.asm"), ("buffering", "update.h update_block_soak"), ("padding", "sha_1_160.h finalize")],
    hs, ["digest bytes returned after update calls", "block function outputs"])
add("C02", "SHA-224/SHA-256 digests equal FIPS 180-4 for every message and backend",
    "For every message of up to 2^61-1 bytes, delivered in any sequence of pieces, the SHA-224 and SHA-256 digests equal the ones FIPS 180-4 defines. This holds on the portable backend and on the SHA-NI backend alike, for any number of blocks handed to a backend at once.",
    ["inputs", "histories", "configurations"],
    "all message contents and lengths, all splits over update calls, both output sizes, both backends",
    "Vectors sample few lengths on one backend; padding boundaries, counter widths, message-schedule wiring and backend block loops need every value.",
    [D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_256_impl_sw.h", D+"hash/sha/sha_2_256_impl_hw_x86_64.asm", D+"hash/sha/sha_2_256_impl_hw_x86_64.h", I+"update.h"],
    [("block compression", "sha_2_256_impl_sw.h blocks; sha_2_256_impl_hw_x86_64.asm"), ("buffering", "update.h update_block_soak"), ("padding", "sha_2_256.h finalize")],
    hs, ["digest bytes returned after update calls", "block function outputs"])
add("C03", "SHA-384/512 and SHA-512/t digests equal FIPS 180-4 for every message",
    "For every message, delivered in any sequence of pieces, the SHA-384, SHA-512, SHA-512/224 and SHA-512/256 digests equal the ones FIPS 180-4 defines, with the 128-bit length field carrying correctly beyond 2^61 bytes.",
    ["inputs", "histories"],
    "all message contents and 64-bit-and-beyond lengths, all splits over update calls, all four output sizes",
    "No test can hash enough data to reach the counter carry, and vectors sample few of the padding boundaries of the 128-byte block.",
    [D+"hash/sha/sha_2_512.h", D+"hash/sha/sha_2_512_impl_sw.h", I+"update.h"],
    [("block compression", "sha_2_512_impl_sw.h blocks"), ("buffering", "update.h update_block_soak"), ("padding and 128-bit length", "sha_2_512.h update, finalize")],
    hs, ["digest bytes returned after update calls", "block function outputs"])
add("C04", "Results never depend on how the input was split over update calls",
    "For hashing, message authentication, ciphers and authenticated encryption, feeding an input in any sequence of pieces (empty pieces included) gives the same output as feeding it in one call. This holds from every reachable intermediate state and for all piece sizes.",
    ["inputs", "histories"],
    "all states reachable by earlier calls, all pairs of adjacent pieces with 64-bit sizes, all contents",
    "Tests use a handful of fixed splits; off-by-one buffering errors show only for particular fill levels combined with particular piece sizes.",
    [I+"update.h", D+"cipher/chacha/chacha.h", D+"mac/poly/poly_1305.h", D+"mac/hmac/hmac.h", D+"aead/chacha/chacha_20_poly_1305.h", D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_512.h"],
    [("block buffering", "update.h update_block_soak"), ("keystream buffering", "update.h update_block_prod_xor"), ("aead piecewise input", "chacha_20_poly_1305.h aad/encrypt/decrypt")],
    [("buffer fill", "bytes pending in an object's block buffer", "m_buffer_size of each primitive")], ["outputs after two calls versus one call"])
add("C05", "The portable ChaCha block function is the RFC 8439 one for every state",
    "For every 16-word state, the portable backend produces for each of any number of consecutive blocks exactly the 20-round ChaCha keystream of that state with its block counter advanced by the block's index modulo 2^32. Encryption output is the input xored with that keystream.",
    ["inputs"],
    "all 2^512 initial states, all block counts by induction, all inputs",
    "Vectors sample a few keys and counters; a wrong rotation under a rare carry, or a counter that fails to wrap, needs every state.",
    [D+"cipher/chacha/chacha_impl_sw.h", D+"cipher/chacha/chacha.h"],
    [("quarter rounds and block loop", "chacha_impl_sw.h")], [("cipher state", "constants, key, counter, nonce", "m_state")], ["keystream / transformed bytes written by the backend"])
add("C06", "Vectorised ChaCha backends equal the portable one for every state and count",
    "For every state, input and number of blocks the SSSE3 and AVX2 backends write the same bytes as the portable backend and report the number of blocks they produced. Block counters wrap modulo 2^32 in every lane exactly like in the portable backend.",
    ["inputs", "configurations"],
    "all states including counters near 2^32, all 64-bit block counts by induction over the main loop, all input bytes",
    "The test machine exercises one vector backend with small counters; lane wiring, counter wrap and loop-count errors need all counter values and counts.",
    [D+"cipher/chacha/chacha_impl_hw_x86_64.asm", D+"cipher/chacha/chacha_impl_hw_x86_64.h", D+"cipher/impl.h"],
    [("4-way SSSE3 loop", "chacha_impl_hw_x86_64.asm ssse3"), ("8-way AVX2 loop", "chacha_impl_hw_x86_64.asm avx2")], [("cipher state", "constants, key, counter, nonce", "m_state")], ["bytes written by each backend", "returned block count"])
add("C07", "ChaCha streams give position-exact keystream, decrypt inverts encrypt",
    "For every key, nonce, starting counter and sequence of piece sizes, byte i of the output is byte i of the input xored with byte i of the keystream, on every backend width and also in place. Consequently decrypting with the same parameters restores the plaintext however either side was split.",
    ["inputs", "histories", "configurations"],
    "all piece-size sequences by one-step induction over arbitrary buffered state, backends producing 1, 4 or 8 blocks at a time, in-place and separate buffers",
    "Leftover keystream handling depends on the combination of backend width, buffered position and piece size; tests take a few sizes on one backend.",
    [D+"cipher/chacha/chacha.h", I+"update.h", D+"cipher/impl.h", P+"cipher/apie.h"],
    [("keystream buffering", "update.h update_block_prod_xor"), ("counter advance", "chacha.h state callback")], [("leftover keystream", "keystream bytes generated but not used yet", "m_buffer, m_buffer_size"), ("block counter", "next block to generate", "m_state[12]")], ["ciphertext bytes"])
add("C08", "Poly1305 block arithmetic is exact modulo 2^130-5 for every accumulator",
    "For every clamped key and every accumulator value reachable while authenticating, absorbing any number of blocks computes (accumulator + block) times key modulo 2^130-5 without losing any carry, and the final tag is the fully reduced value plus the key's second half modulo 2^128.",
    ["inputs"],
    "all clamped keys, all accumulator limb values inside the invariant the code maintains, all 16-byte blocks, any number of blocks by induction",
    "Carry bugs in Poly1305 appear with probability around 2^-32 or lower per block; published implementations shipped such bugs past their test vectors.",
    [D+"mac/poly/poly_1305_impl_sw.h", D+"mac/poly/poly_1305_impl.h", D+"mac/poly/poly_1305.h"],
    [("multiply and reduce", "poly_1305_impl_sw.h"), ("final reduction and tag", "poly_1305.h finalize")], [("accumulator", "partially reduced value", "m_acc"), ("key limbs", "clamped r and precomputed multiples", "m_key_r")], ["accumulator after a block", "tag bytes"])
add("C09", "Poly1305 tags follow RFC 8439 for every key, length and chunking",
    "For every message delivered in any sequence of pieces, the tag is the RFC 8439 one: 16-byte blocks with the high bit set, a final partial block with a one byte appended, and the key's first half clamped. A key longer than 32 bytes is truncated and a shorter one zero padded.",
    ["inputs", "histories"],
    "all messages and lengths, all splits, all key lengths including 0",
    "Partial-block and short-key paths depend on exact lengths; vectors cover a few.",
    [D+"mac/poly/poly_1305.h", D+"mac/poly/poly_1305_impl_sw.h", I+"update.h", P+"mac/apie.h"],
    [("key setup", "poly_1305.h initialize"), ("buffering", "update.h"), ("final block", "poly_1305.h finalize")], [("partial block", "bytes pending", "m_buffer, m_buffer_size")], ["tag bytes"])
add("C10", "HMAC equals RFC 2104 for every key, message and underlying hash",
    "For every key of any length and every message, the code computes H((K xor opad) || H((K xor ipad) || message)) with keys longer than a block replaced by their hash and shorter keys zero padded. This holds for each supported hash and with a truncated underlying digest size.",
    ["inputs", "histories", "configurations"],
    "all keys with lengths below, at and above the block size, all messages, all supported hashes",
    "The key-length boundary and the per-hash block/digest sizes multiply into more cases than the vectors sample.",
    [D+"mac/hmac/hmac.h", P+"mac/apie.h"],
    [("key preparation and pads", "hmac.h initialize"), ("outer hash", "hmac.h finalize")], [("inner and outer contexts", "hash states after absorbing the pads", "hmac.h")], ["sequence of bytes fed to each hash", "digest bytes"])
add("C11", "HKDF output equals RFC 5869 for every input, length and chunking",
    "For all key material, salts, infos and output lengths up to 255 hash blocks, extract-and-expand yields exactly the RFC 5869 output. Reading the output in any sequence of piece sizes yields consecutive parts of that same output.",
    ["inputs", "histories"],
    "all salts/keys/infos (lengths symbolic), all reachable read positions, all piece sizes within the bound",
    "The read position inside a block, the block counter and the chaining value interact; tests read a few fixed sizes.",
    [D+"kdf/hkdf.h", P+"kdf/apie.h"],
    [("extract", "hkdf.h initialize"), ("expand", "hkdf.h expand")], [("last block and counter", "T(n) and its index", "hkdf.h")], ["output key bytes"])
add("C12", "PBKDF2 output equals RFC 8018 for every input, count, length and chunking",
    "For all passwords, salts, iteration counts and output lengths, derived bytes equal the RFC 8018 definition with big-endian 32-bit block indexes. Reading the output in any sequence of piece sizes yields consecutive parts of that same output.",
    ["inputs", "histories"],
    "all passwords and salts (lengths symbolic), all iteration counts by induction within stated bounds, all piece sizes within the bound",
    "Iteration edge cases (1 and large), block index encoding and mid-block reads combine; tests use a few fixed settings.",
    [D+"kdf/pbkdf_2.h", P+"kdf/apie.h"],
    [("block derivation", "pbkdf_2.h expand")], [("last block and counter", "T(i) and its index", "pbkdf_2.h")], ["output key bytes"])
add("C13", "AEAD ciphertext and tag follow RFC 8439 for every input and chunking",
    "For every key, nonce, associated data and plaintext, in any chunking and including empty parts, the ciphertext is ChaCha20 starting at block 1 and the tag is Poly1305 under the block-0 key over padded data, padded ciphertext and both 64-bit lengths.",
    ["inputs", "histories"],
    "all keys/nonces/data, all lengths (64-bit) including zero associated data or zero plaintext, all call sequences allowed by the documentation",
    "Padding and length framing depend on both lengths modulo 16 and on which calls were made; tests use a few complete messages.",
    [D+"aead/chacha/chacha_20_poly_1305.h", P+"aead/apie.h"],
    [("one-time key", "chacha_20_poly_1305.h initialize"), ("aad/ciphertext framing", "chacha_20_poly_1305.h aad/encrypt/decrypt/finalize")], [("lengths", "bytes of associated data and ciphertext so far", "chacha_20_poly_1305.h")], ["ciphertext and tag bytes"])
add("C14", "Authenticated decryption inverts encryption and accepts the genuine tag",
    "For every key, nonce, associated data and plaintext, decrypting what was encrypted with the same parameters restores the plaintext, computes the same tag and reports no error, whatever the chunking on either side and also in place.",
    ["inputs", "histories"],
    "all inputs and lengths, independent chunkings for the two directions",
    "Order of authenticating and transforming matters only for aliased buffers and certain chunkings, which tests do not combine.",
    [D+"aead/chacha/chacha_20_poly_1305.h", P+"aead/apie.h"],
    [("encrypt then authenticate", "chacha_20_poly_1305.h encrypt"), ("authenticate then decrypt", "chacha_20_poly_1305.h decrypt")], [("direction-independent state", "mac and cipher contexts", "chacha_20_poly_1305.h")], ["plaintext bytes, verification result"])
add("C15", "Tag verification fails exactly when the tag differs, by error or exception",
    "For every computed tag and every presented tag of the right size, verification succeeds if and only if all bytes are equal. A mismatch (or wrong size) always surfaces, as the error code when an error argument is given and as a catchable exception otherwise, in every overload including the one-call forms.",
    ["inputs", "configurations"],
    "all pairs of tags, all presented tag sizes within the bound, every verify and decrypt overload",
    "A forged tag differing in one chosen bit, or the throwing form of one overload, is exactly what sampled tests leave out.",
    [P+"aead/apie.h", I+"memory.h", "src/milo/error.h"],
    [("tag comparison", "aead/apie.h verify; memory.h comparison"), ("error delivery", "aead/apie.h error/throw paths")], [], ["returned error code, thrown exception"])
add("C16", "Base-16 encoding is exact and decoding inverts it for every byte string",
    "For every byte string, encoding writes the two lower-case hex digits of each byte in order, and decoding the result gives back the original bytes with no error.",
    ["inputs"],
    "all byte strings up to the stated length, every overload",
    "Byte and position combinations beyond the samples are never tried.",
    [D+"codec/base_16.h", P+"codec/apie.h"],
    [("encode", "base_16.h encode"), ("decode", "base_16.h decode")], [], ["encoded characters, decoded bytes, sizes, error"])
add("C17", "Base-16 decoding rejects exactly the malformed texts",
    "Decoding succeeds if and only if every character is one of 0-9, a-f or A-F; any other byte value, wherever it stands, is reported as a decode error and never decoded into data. The result is the bytes the digits denote, a text of odd length starting with a single-digit byte; on an error the returned size is the number of bytes decoded before it.",
    ["inputs"],
    "all texts up to the stated length over all 256 byte values",
    "Tests feed valid hex and a few ASCII errors; bytes above 0x7f and odd lengths are not sampled.",
    [D+"codec/base_16.h", P+"codec/apie.h", "src/milo/error.h"],
    [("digit lookup", "base_16.h decode")], [], ["error code or exception, decoded bytes, size"])
add("C18", "Base-64 encoding matches RFC 4648 and decoding inverts it for every input",
    "For every byte string, encoding produces the RFC 4648 text (standard alphabet, padded), and decoding that text gives back the original bytes with no error.",
    ["inputs"],
    "all byte strings up to the stated length, every overload",
    "Tail handling depends on length modulo 3 for all byte values; vectors sample a few strings.",
    [D+"codec/base_64.h", P+"codec/apie.h"],
    [("encode", "base_64.h encode"), ("decode", "base_64.h decode")], [], ["encoded characters, decoded bytes, sizes, error"])
add("C19", "Base-64 decoding rejects exactly the malformed texts",
    "Decoding reports an error if and only if the text's length is not a multiple of four or it contains a byte outside the alphabet in a data position (one or two padding characters may end it); no foreign byte is ever decoded into data, and well-formed texts are never rejected.",
    ["inputs"],
    "all texts up to the stated length over all 256 byte values",
    "Tests feed valid text and a few ASCII errors; bytes above 0x7f and odd tails are not sampled.",
    [D+"codec/base_64.h", P+"codec/apie.h", "src/milo/error.h"],
    [("character lookup", "base_64.h decode")], [], ["error code or exception, decoded bytes, size"])
add("C20", "Codec size queries bound what is written, for every size and capacity",
    "For every input size the size queries return the exact encoded size and a decoded size no smaller than what decoding produces; encoding and decoding never write more than the query announced nor read past the given input, and return the number of bytes written.",
    ["inputs"],
    "all 64-bit sizes for the size arithmetic (no wrap below the stated limit), all contents of the stated lengths for the memory accesses",
    "Size arithmetic at extremes is not exercised by tests, and an overrun by a byte goes unnoticed without a detector.",
    [D+"codec/base_16.h", D+"codec/base_64.h", P+"codec/apie.h"],
    [("size arithmetic", "base_16.h, base_64.h encode_size/decode_size"), ("loops over the input", "base_16.h, base_64.h encode/decode")], [], ["returned sizes, bytes written"])
add("C21", "Backend selection never picks code the processor cannot run",
    "For every combination of processor feature bits, the backend chosen for each algorithm uses only instructions that those bits announce and that the operating system has made usable, and some backend is always chosen. A backend preferred by option is used when supported, an enforced one always.",
    ["configurations"],
    "all values of the cpuid registers of the leaves the code reads, every algorithm with hardware backends",
    "Tests see only the one processor they run on.",
    [I+"impl.h", I+"arch.h", I+"arch/x86_64.h", D+"hash/sha/sha_1_160_impl_hw_x86_64.h", D+"hash/sha/sha_2_256_impl_hw_x86_64.h", D+"cipher/chacha/chacha_impl_hw_x86_64.h"],
    [("selection", "impl.h impl_choose_hook"), ("requirements", "*_impl_hw_x86_64.h requirements")], [("selected backend", "function pointer fixed at start-up", "impl.h impl_runtime_reader")], ["selected backend for given cpuid values"])
add("C22", "Reported processor features equal the documented CPUID bits",
    "For every CPUID register content, each feature the library reports as available is exactly the one the processor manual assigns to the leaf, register and bit, and no feature is reported from leaves above the maximum the processor supports.",
    ["configurations"],
    "all values of all registers of all leaves read, including low maximum leaves",
    "Tests see only the one processor they run on.",
    [I+"arch/x86_64.h", I+"arch/x86_64/cpuid.asm", I+"arch/any.h", I+"arch.h"],
    [("cpuid wrapper", "cpuid.asm"), ("feature decode", "x86_64.h")], [], ["feature predicate results"])
add("C23", "Assembly backends touch only their operands and keep the calling convention",
    "For every block count, the assembly routines read and write only the state, source and destination ranges that count implies plus their own stack frame, modify only the outputs, and on return have restored the stack pointer and every callee-saved register.",
    ["inputs", "configurations"],
    "all register and memory contents at entry, all 64-bit block counts by induction over the loops",
    "A clobbered callee-saved register or an overread beyond the last block only shows with particular callers or page layouts.",
    [D+"hash/sha/sha_1_160_impl_hw_x86_64.asm", D+"hash/sha/sha_2_256_impl_hw_x86_64.asm", D+"cipher/chacha/chacha_impl_hw_x86_64.asm", I+"arch/x86_64/cpuid.asm", I+"arch/x86_64/abi.asm"],
    [("prologue/epilogue", "abi.asm and each routine"), ("block loops", "each routine")], [], ["registers and memory after return"])
add("C24", "Compile-time evaluation gives the same results as run-time evaluation",
    "For every input, each primitive evaluated in a constant expression computes the same result as at run time. This covers the byte-order, load/store, copy and xor helpers that have separate compile-time paths for every element width, and the compile-time choice of backend.",
    ["inputs", "configurations"],
    "all values and offsets for every element-width pair in use, all sizes within the bound, both evaluation paths",
    "Each test evaluates a fixed vector at compile time; the two paths of a helper are never compared on other values or widths.",
    [I+"memory.h", I+"endian.h", I+"bit.h", I+"impl.h", "src/milo/meta.h"],
    [("dual-path helpers", "memory.h, endian.h"), ("compile-time backend choice", "impl.h invoke")], [], ["helper results on both paths"])
add("C25", "Sensitive data is erased when an object is destroyed",
    "After destruction of any hashing, authentication, cipher, key-derivation or authenticated-encryption object, in whatever state it was, no byte of its storage depends on the content of keys or of processed data, or on the number of bytes processed by hashing, authentication or encryption; and the erasure survives compiler optimisation. (The address and length of ranges that a key-derivation object refers to are not part of this.)",
    ["inputs", "histories"],
    "all object contents (all members arbitrary) at the time of destruction, every primitive type",
    "Optimisers delete dead stores; a test reading results cannot see leftovers in dead memory.",
    [I+"memory.h", D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_512.h", D+"cipher/chacha/chacha.h", D+"mac/poly/poly_1305.h", D+"mac/hmac/hmac.h", D+"kdf/hkdf.h", D+"kdf/pbkdf_2.h", D+"aead/chacha/chacha_20_poly_1305.h"],
    [("erasure helper", "memory.h memory_erase"), ("destructors", "each primitive")], [], ["object storage after destruction"])
add("C26", "Secret values never steer branches or addresses",
    "In tag verification, ciphers, MACs and hashing, neither the sequence of executed branches nor any accessed address depends on key, message or tag bytes, only on sizes. Tag comparison in particular reads every byte whatever the contents.",
    ["inputs"],
    "all secret contents, sizes within the bound, compiled code of the portable and assembly backends",
    "Timing behaviour is invisible to functional tests.",
    [I+"memory.h", P+"aead/apie.h", D+"mac/poly/poly_1305_impl_sw.h", D+"mac/poly/poly_1305.h", D+"cipher/chacha/chacha_impl_sw.h", D+"cipher/chacha/chacha_impl_hw_x86_64.asm", D+"hash/sha/sha_2_256_impl_sw.h"],
    [("constant-time comparison", "memory.h"), ("final reduction", "poly_1305.h finalize")], [], ["branch conditions and addresses"])
add("C27", "Digest output is the prefix that fits: never more than asked, held or produced",
    "For every requested size and destination capacity, reading a digest or tag writes exactly min(requested, capacity, produced) bytes, the leading bytes of the full value, returns that count and leaves everything else untouched. A configured shorter digest size limits all of this.",
    ["inputs", "configurations"],
    "all requested sizes (64-bit), all capacities within the bound, every digest overload of hash, MAC and AEAD",
    "Truncation at sizes that are not a multiple of the word size uses a separate path for each remainder.",
    [I+"memory.h", P+"hash/apie.h", P+"mac/apie.h", P+"aead/apie.h", D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_512.h"],
    [("big-endian partial copy", "memory.h memory_copy_be"), ("size limiting", "apie digest overloads; internal resize")], [], ["bytes written, returned size"])
add("C28", "Byte-order and block-memory helpers are exact for every width, offset and size",
    "Loads, stores, copies, fills, erasures and xors over arrays of any element width treat exactly the addressed bytes and give exactly the native, big-endian or little-endian value, including partial sizes that end inside an element.",
    ["inputs", "configurations"],
    "all values, all offsets and sizes within the bound, every pair of element widths in use",
    "Partial-element paths are exercised by tests for few width/size pairs.",
    [I+"memory.h", I+"endian.h", I+"bit.h", I+"utility.h"],
    [("load/store", "memory.h memory_load*/memory_stor*"), ("copy/xor/fill", "memory.h"), ("swap/rotate", "endian.h, bit.h")], [], ["helper results"])
add("C29", "Objects are reusable and copies independent; reading a result twice agrees",
    "After re-initialising an object in any state it behaves as a new one; a copy taken at any point continues independently of the original with identical results; and reading a digest again without new input returns the same bytes.",
    ["histories"],
    "all object states reachable by any history (members arbitrary), all subsequent inputs",
    "Stale members matter only after particular earlier uses, which tests, creating fresh objects, never set up.",
    [P+"hash/apie.h", P+"mac/apie.h", P+"aead/apie.h", P+"cipher/apie.h", P+"kdf/apie.h", D+"hash/sha/sha_1_160.h", D+"mac/hmac/hmac.h", D+"mac/poly/poly_1305.h", D+"cipher/chacha/chacha.h", D+"aead/chacha/chacha_20_poly_1305.h"],
    [("initialisation", "initialize of each primitive"), ("lazy finalisation", "apie do_finalize")], [("finalised flag", "whether the result has been computed", "apie m_finalized")], ["outputs after reuse, of a copy, on second read"])
add("C30", "Every convenience form gives exactly what the underlying primitive gives",
    "Constructors, container and character overloads, fixed-size and growing results, one-call functions, and the lazily finalising classes pass exactly the caller's inputs to the primitive, in order, once, and deliver exactly its output and error, leaving other memory untouched.",
    ["inputs", "configurations"],
    "every form of the hash, mac, cipher, kdf and codec interfaces, all input contents and sizes, all results and errors of the primitive",
    "There are some 150 forms; tests use a few of them, with fixed sizes, and several were never instantiated at all.",
    [P+"hash/apie.h", P+"mac/apie.h", P+"cipher/apie.h", P+"kdf/apie.h", P+"codec/apie.h", P+"aead/apie.h", I+"utility.h"],
    [("forwarding and one-call forms", "*/apie.h"), ("container sizing", "internal/utility.h resize"), ("lazy finalisation", "hash/apie.h, mac/apie.h do_finalize")],
    [("finalised flag", "whether the result has been computed", "apie m_finalized")], ["bytes passed to the primitive, bytes and sizes returned, errors"])
add("C31", "Benchmark name patterns match exactly the names the glob describes",
    "A pattern matches a name if and only if the name can be obtained by replacing each star in the pattern with some (possibly empty) text, the rest matching literally over the whole name.",
    ["inputs"],
    "all patterns and names up to the stated lengths",
    "Tests never run the application; greedy matching fails only for particular repetitions in the name.",
    ["app/include/milo/app/pattern.h", "doc/benchmarking.md"],
    [("star matching", "pattern.h pattern_match_star")], [], ["match result"])
add("C32", "Command-line parameters are recognised by their exact name",
    "After the commands already read, a parameter --name=value found before the next argument not starting with -- is taken for exactly that name, the first one counting; its value is everything after the first equals sign, for numbers all of it in decimal and at most 2^64-1, empty meaning 0. Other arguments are ignored; an absent or malformed parameter is reported as an error or gives the default where there is one. Options are recognised by exact name in the same range, commands are the arguments not starting with a dash, and running without arguments is safe.",
    ["inputs"],
    "all argument lists up to the stated count and length",
    "Tests never run the application's argument handling.",
    ["app/include/milo/app/parameter.h", "app/include/milo/app/run.h", "doc/benchmarking.md"],
    [("lookup", "parameter.h")], [], ["parameter values read"])
add("C33", "No operation reads or writes outside its objects, for any size",
    "For every object state and all sizes, no operation of hashing, authentication, encryption or key derivation reads or writes outside its own object and the caller's ranges, and caller input ranges are never written.",
    ["inputs", "histories"],
    "all reachable states, 64-bit sizes by one-step induction, every primitive's operations",
    "An out-of-range access by a few bytes inside a larger object passes functional tests.",
    [I+"update.h", I+"memory.h", D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_512.h", D+"cipher/chacha/chacha.h", D+"mac/poly/poly_1305.h", D+"aead/chacha/chacha_20_poly_1305.h", D+"kdf/hkdf.h", D+"kdf/pbkdf_2.h"],
    [("buffer indexing", "update.h; each finalize")], [("buffer fill", "bytes pending", "m_buffer_size")], ["accessed addresses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props))
