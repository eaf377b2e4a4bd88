// Native executor for replays: same program, inputs taken from a file.
//   replay inputs.txt      lines: <bits> <value>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" void SX_ENTRY();

static const std::size_t PG = 4096;
static char* heap;      // reserved region, handed out upwards, never reused
static char* heap_end;
struct blk { char* user; std::size_t n, map; char* base; bool live; };
static blk* blks;
static std::size_t nblk;
static unsigned long* inv;
static unsigned* inb;
static std::size_t nin, pin;
static bool notes;

static void say(const char* a, const char* b) {
    dprintf(1, "%s %s\n", a, b);
}
[[noreturn]] static void bad(const char* k, const char* m, int rc) { say(k, m); _exit(rc); }

static void heap_init() {
    if (heap != nullptr) { return; }
    std::size_t sz = 1ULL << 38;
    heap = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000), sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    heap_end = heap + sz;
    blks = static_cast<blk*>(mmap(nullptr, 1ULL << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
static bool slack_ok(const blk& b) {
    char* e = b.base + b.map;
    for (char* p = b.user + b.n; p < e; p++) { if (*p != static_cast<char>(0xA5)) { return false; } }
    return true;
}

extern "C" {
void* sx_alloc(std::size_t n) {
    heap_init();
    std::size_t need = (n + 63) / 64 * 64;
    if (need == 0) { need = 64; }
    std::size_t map = (need + PG - 1) / PG * PG;
    char* base = heap;
    heap += map + PG; // guard page after every block
    mprotect(base, map, PROT_READ | PROT_WRITE);
    memset(base, 0xA5, map);
    std::size_t al = n % 64 == 0 ? 64 : 16;
    std::size_t rn = (n + al - 1) / al * al;
    if (rn == 0) { rn = 16; }
    char* u = base + map - rn;
    if (n >= 256) { u = base + map - need; }
    blks[nblk++] = {u, n, map, base, true};
    return u;
}
void sx_free(void* p) {
    if (p == nullptr) { return; }
    for (std::size_t i = nblk; i-- > 0;) {
        if (blks[i].user == p) {
            if (!blks[i].live) { bad("REPLAY-MEMORY", "double free", 43); }
            if (!slack_ok(blks[i])) { bad("REPLAY-MEMORY", "write past the end", 43); }
            blks[i].live = false;
            mprotect(blks[i].base, blks[i].map, PROT_NONE);
            return;
        }
    }
    bad("REPLAY-MEMORY", "free of unknown pointer", 43);
}

struct fiber { ucontext_t c; void (*fn)(void*); void* arg; };
static fiber* fib[64];
static unsigned nfib = 1, curf = 0;
static void tramp() {
    fiber* f = fib[curf];
    f->fn(f->arg);
    bad("REPLAY-ERROR", "thread function returned", 45);
}
std::uint64_t sx_spawn_raw(void (*fn)(void*), void* arg) {
    fiber* f = static_cast<fiber*>(calloc(1, sizeof(fiber)));
    f->fn = fn; f->arg = arg;
    getcontext(&f->c);
    f->c.uc_stack.ss_size = 1 << 20;
    f->c.uc_stack.ss_sp = malloc(1 << 20);
    makecontext(&f->c, tramp, 0);
    fib[nfib] = f;
    return nfib++;
}
void sx_switch(std::uint64_t t) {
    unsigned o = curf;
    if (t == o) { return; }
    curf = static_cast<unsigned>(t);
    swapcontext(&fib[o]->c, &fib[t]->c);
}
std::uint64_t sx_cur() { return curf; }
static std::uint64_t take(unsigned bits) {
    if (pin >= nin) { return 0; } // unconstrained beyond the recorded ones
    if (inb[pin] != bits) { bad("REPLAY-DIVERGED", "input width", 44); }
    return inv[pin++];
}
void sx_bytes(void* p, std::size_t n, const char*) { for (std::size_t i = 0; i < n; i++) { static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(take(8)); } }
std::uint64_t sx_u64(std::uint64_t bits, const char* nm) {
    std::uint64_t v = take(static_cast<unsigned>(bits));
    if (getenv("SX_TRACE")) { dprintf(2, "input %s = %llu\n", nm, (unsigned long long)v); }
    return v;
}
void sx_assume(bool c) { if (!c) { bad("REPLAY-DIVERGED", "assumption", 44); } }
void sx_assert(bool c, const char* m) { if (!c) { bad("REPLAY-VIOLATION", m, 42); } }
[[noreturn]] void sx_fail(const char* m) { bad("REPLAY-VIOLATION", m, 42); }
void sx_witness(std::uint64_t) {}
[[noreturn]] void sx_end() { bad("REPLAY-END", "", 0); }
std::uint64_t sx_conc(std::uint64_t v) { return v; }
static std::uint64_t clk;
std::uint64_t sx_clock() { return clk += 1000; }
void sx_note(const char* m, std::uint64_t v) { if (notes) { dprintf(2, "[%u] %s %lld\n", curf, m, (long long)v); } }
void sx_print(const char* m, std::uint64_t v) { dprintf(2, "[%u] %s %llx\n", curf, m, (unsigned long long)v); }
bool sx_is_symbolic(std::uint64_t) { return false; }
}
static void segv(int s, siginfo_t* si, void*) {
    char b[64];
    snprintf(b, sizeof b, "signal %d at %p", s, si->si_addr);
    bad("REPLAY-MEMORY", b, 43);
}
int main(int argc, char** argv) {
    heap_init();
    notes = getenv("SX_NOTES") != nullptr;
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = segv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
    inv = static_cast<unsigned long*>(calloc(1 << 20, 8));
    inb = static_cast<unsigned*>(calloc(1 << 20, 4));
    FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
    if (f != nullptr) { while (nin < (1u << 20) && fscanf(f, "%u %lu", &inb[nin], &inv[nin]) == 2) { nin++; } fclose(f); }
    fib[0] = static_cast<fiber*>(calloc(1, sizeof(fiber)));
    alarm(120);
    SX_ENTRY();
    for (std::size_t i = 0; i < nblk; i++) { if (blks[i].live && !slack_ok(blks[i])) { bad("REPLAY-MEMORY", "write past the end", 43); } }
    bad("REPLAY-END", "", 0);
}

// type information is never inspected in these programs
extern "C" {
void* _ZTVN10__cxxabiv117__class_type_infoE[16];
void* _ZTVN10__cxxabiv120__function_type_infoE[16];
void* _ZTVN10__cxxabiv119__pointer_type_infoE[16];
void* _ZTVN10__cxxabiv116__enum_type_infoE[16];
void* _ZTVN10__cxxabiv123__fundamental_type_infoE[16];
void* _ZTVN10__cxxabiv117__array_type_infoE[16];
void* _ZTVN10__cxxabiv120__si_class_type_infoE[16];
void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[16];
}
