// Calls the assembly routines directly: guard pages around every operand, every alignment of the
// operands and of the stack, callee-saved registers and the caller's frame checked afterwards.
#include "drv.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
uint64_t milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_transform(uint64_t, uint64_t, const uint32_t*, uint8_t*, const uint8_t*);
uint64_t milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_generate(uint64_t, uint64_t, const uint32_t*, uint8_t*);
uint64_t milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_transform(uint64_t, uint64_t, const uint32_t*, uint8_t*, const uint8_t*);
uint64_t milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_generate(uint64_t, uint64_t, const uint32_t*, uint8_t*);
uint64_t milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks(uint64_t, uint32_t*, const uint8_t*);
uint64_t milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks(uint64_t, uint32_t*, const uint8_t*);
void milo_internal_arch_x86_64_cpuid(void*, uint64_t, uint64_t);

struct context
{
    void* fn;
    uint64_t arg[6];
    uint64_t adjust;      // 0: stack pointer 24 modulo 32 at entry, 16: 8 modulo 32
    uint64_t rax;
    uint64_t saved[7];    // rbx rbp r12 r13 r14 r15 rsp difference
    uint64_t frame;       // number of damaged words of the caller's frame
};
context* verif_ctx;
uint64_t verif_rsp, verif_exp;
void verif_call(context*);
}

asm(R"(
.intel_syntax noprefix
.text
.globl verif_call
verif_call:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    mov [rip + verif_ctx], rdi
    mov [rip + verif_rsp], rsp
    and rsp, -32
    sub rsp, 512
    sub rsp, [rdi + 56]
    mov [rip + verif_exp], rsp
    mov rcx, 32
    mov rax, rsp
    mov rdx, 0x5a5aa5a5c3c33c3c
1:  mov [rax], rdx
    add rax, 8
    dec rcx
    jnz 1b
    mov rax, rdi
    mov rdi, [rax + 8]
    mov rsi, [rax + 16]
    mov rdx, [rax + 24]
    mov rcx, [rax + 32]
    mov r8,  [rax + 40]
    mov r9,  [rax + 48]
    mov rbx, 0x1111111122222221
    mov rbp, 0x1111111122222222
    mov r12, 0x1111111122222223
    mov r13, 0x1111111122222224
    mov r14, 0x1111111122222225
    mov r15, 0x1111111122222226
    call [rax]
    mov r11, [rip + verif_ctx]
    mov [r11 + 64], rax
    mov [r11 + 72], rbx
    mov [r11 + 80], rbp
    mov [r11 + 88], r12
    mov [r11 + 96], r13
    mov [r11 + 104], r14
    mov [r11 + 112], r15
    mov rax, rsp
    sub rax, [rip + verif_exp]
    mov [r11 + 120], rax
    mov rax, [rip + verif_exp]
    mov rcx, 32
    xor edx, edx
    mov r10, 0x5a5aa5a5c3c33c3c
2:  cmp [rax], r10
    je 3f
    inc rdx
3:  add rax, 8
    dec rcx
    jnz 2b
    mov [r11 + 128], rdx
    mov rsp, [rip + verif_rsp]
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
.att_syntax
)");

static sigjmp_buf env;

static void on_fault(int s)
{
    siglongjmp(env, s);
}

// len bytes with inaccessible pages around, at the end or the start of the accessible ones
struct area
{
    uint8_t* base;
    size_t total;
    uint8_t* p;
    size_t n;
    area(size_t len, bool end, size_t mis)
    {
        n = len;
        size_t room = (len + mis + 4095) / 4096 * 4096;
        total = room + 8192;
        base = (uint8_t*) mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (room) mprotect(base + 4096, room, PROT_READ | PROT_WRITE);
        if (room) memset(base + 4096, 0xa5, room);
        p = end ? base + 4096 + room - len - mis : base + 4096 + mis;
    }
    bool around(size_t len) const
    {
        for (auto q = base + 4096; q < base + total - 4096; q++)
            if ((q < p || q >= p + len) && *q != 0xa5) return false;
        return true;
    }
    void protect() const { if (total > 8192) mprotect(base + 4096, total - 8192, PROT_READ); }
    ~area() { munmap(base, total); }
};

static bool supported(const std::string& f)
{
    auto has = [&](uint32_t leaf, int reg, int bit) {
        uint32_t r[4]{};
        asm volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(leaf), "c"(0));
        return r[reg] >> bit & 1;
    };
    if (f == "avx_2") return __builtin_cpu_supports("avx2");
    if (f == "ssse_3") return __builtin_cpu_supports("ssse3");
    return has(7, 1, 29) && __builtin_cpu_supports("ssse3");
}

static std::string invoke(context& c)
{
    int s = sigsetjmp(env, 1);
    if (s) return s == SIGILL ? "illegal" : "fault";
    verif_call(&c);
    static const char* names[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; i++)
        if (c.saved[i] != 0x1111111122222221ull + i) return std::string("clobbered ") + names[i];
    if (c.saved[6]) return "stack pointer off";
    if (c.frame) return "caller frame overwritten";
    return "";
}

int main()
{
    stack_t ss{};
    ss.ss_sp = malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_fault;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::string l;
    while (std::getline(std::cin, l)) {
        // chacha <backend> <transform|generate> <n> <state> <src> [inplace] / sha1|sha256 ni blocks <n> <state> <src>
        // early: as above with a count far beyond the memory given: must not return
        auto w = words(l);
        if (w[0] == "cpuid") {
            uint64_t leaf = strtoull(w[1].c_str(), nullptr, 0), sub = strtoull(w[2].c_str(), nullptr, 0);
            std::string r = "ok";
            for (int combo = 0; combo < 8; combo++) {
                area o(16, combo & 1, combo & 2 ? 1 : 0);
                context c{};
                c.adjust = combo & 4 ? 16 : 0;
                c.fn = (void*) milo_internal_arch_x86_64_cpuid;
                c.arg[0] = (uint64_t) o.p; c.arg[1] = leaf; c.arg[2] = sub;
                auto e = invoke(c);
                uint32_t x[4]{}, y[4];
                asm volatile("cpuid" : "=a"(x[0]), "=b"(x[1]), "=c"(x[2]), "=d"(x[3]) : "a"(leaf), "c"(sub));
                if (leaf == 1) { x[1] &= 0xffffff; if (e.empty()) o.p[7] = 0; }
                memcpy(y, o.p, 16);
                if (!e.empty()) r = e;
                else if (memcmp(x, y, 16)) r = "values differ";
                else if (!o.around(16)) r = "wrote outside";
            }
            printf("%s\n", r.c_str());
            continue;
        }
        bool early = w[0] == "early";
        if (early) w.erase(w.begin());
        bool cha = w[0] == "chacha", tr = w[2] == "transform", in = w.size() > 6 && w[6] == "inplace";
        size_t n = strtoull(w[3].c_str(), nullptr, 0), ratio = cha ? (w[1] == "avx_2" ? 8 : 4) : 1;
        auto state = get(w[4]);
        data src = get(w[5]);
        if (!supported(w[1])) { printf("unsupported\n"); continue; }
        size_t len = early ? 1 << 16 : 64 * ratio * n;
        std::string first;
        for (int combo = 0; combo < 16; combo++) {
            bool end = combo & 1;
            size_t mis = combo & 2 ? 1 : 0;
            area st(state.n, combo & 8, mis), sr(len, end, mis), ds(len, end, combo & 8 ? 3 * mis : mis);
            memcpy(st.p, state.p, state.n);
            if (src.n) memcpy(sr.p, src.p, std::min(src.n, len));
            if (cha) st.protect();
            if (!in) sr.protect();
            context c{};
            c.adjust = combo & 4 ? 16 : 0;
            uint8_t* d = in ? sr.p : ds.p;
            std::string r;
            if (cha) {
                uint64_t a[] = {10, n, (uint64_t) st.p, (uint64_t) d, (uint64_t) sr.p};
                memcpy(c.arg, a, sizeof a);
                if (ratio == 8) c.fn = tr ? (void*) milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_transform : (void*) milo_primitive_detail_cipher_chacha_impl_hw_x86_64_avx_2_ietf_generate;
                else c.fn = tr ? (void*) milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_transform : (void*) milo_primitive_detail_cipher_chacha_impl_hw_x86_64_ssse_3_ietf_generate;
            } else {
                uint64_t a[] = {n, (uint64_t) st.p, (uint64_t) sr.p};
                memcpy(c.arg, a, sizeof a);
                c.fn = w[0] == "sha1" ? (void*) milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks : (void*) milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks;
            }
            r = invoke(c);
            if (early) {
                if (r != "fault") { first = "returned"; break; }
                first = "fault";
                continue;
            }
            if (r.empty()) {
                if (cha) r = std::to_string(c.rax) + " " + hex(d, len);
                else r = hex(st.p, state.n);
                if (!st.around(state.n) || !sr.around(len) || (cha && !ds.around(len))) r = "wrote outside";
            }
            if (combo == 0) first = r;
            else if (r != first) { first = "placement " + std::to_string(combo) + " gives " + r; break; }
        }
        printf("%s\n", first.c_str());
        fflush(stdout);
    }
}
