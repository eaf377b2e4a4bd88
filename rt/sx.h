// Interface between harnesses, the modelled runtime and the two ways of executing them
// (symbolic: engine/symx.cpp, concrete replay: rt/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

extern "C" {
// primitives supplied by the executor
void* sx_alloc(std::size_t n);
void sx_free(void* p);
std::uint64_t sx_spawn_raw(void (*fn)(void*), void* arg);
void sx_switch(std::uint64_t tid);
std::uint64_t sx_cur();
void sx_bytes(void* p, std::size_t n, const char* name);        // n unconstrained bytes
std::uint64_t sx_u64(std::uint64_t bits, const char* name);     // unconstrained integer
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
[[noreturn]] void sx_fail(const char* msg);
void sx_witness(std::uint64_t id);                              // reachability mark
[[noreturn]] void sx_end();                                     // end of the path
std::uint64_t sx_conc(std::uint64_t v);                         // split on the value
std::uint64_t sx_clock();
void sx_print(const char* msg, std::uint64_t v);
void sx_note(const char* msg, std::uint64_t v);                 // shown by replays run with SX_NOTES=1
bool sx_is_symbolic(std::uint64_t v);

// modelled runtime (rt/rt.cpp)
void __sx_point();
void __sx_point_w();
void sx_pause();
}

// unconstrained value in [0, n), one path per value
std::uint64_t sx_choose(std::uint64_t n, const char* name);
// unconstrained value in [0, n), kept symbolic
std::uint64_t sx_range(std::uint64_t n, const char* name);

// --- threads ---
// background (library) threads run only inside these calls, or when the caller has to wait
extern std::size_t sx_live; // objects allocated and not freed
std::size_t sx_bg_count();
void sx_bg_step(std::size_t i); // run background thread i until it sleeps, waits or ends
void sx_tick();                 // every background thread once, in order of creation
// client threads explored under all schedules with at most `preempt` preemptions
void sx_client(void (*fn)(void*), void* arg);
void sx_run_clients(unsigned preempt, bool with_bg = false, unsigned bg_wakes = 0);
extern std::uint64_t sx_awake;  // with_bg: bit i set: background thread i takes part from the start, preempted as the clients are
extern unsigned sx_spin_limit;  // rounds without progress before "blocked forever"
extern bool sx_blocked_is_failure;
extern unsigned long sx_log_errors;
extern int sx_log_error_line;
extern const char* sx_log_error_file;

struct sx_nopreempt {
    sx_nopreempt();
    ~sx_nopreempt();
};

// --- modelled log ---
#ifdef PWAL
struct sx_log_entry {
    std::uint64_t ep;  // epoch of the session that wrote it
    int kind;          // 0 put, 1 remove, 2 add storage, 3 remove storage
    std::uint64_t st;
    std::string k, v;
    std::uint64_t major, minor;
    std::vector<std::uint64_t> blobs;
};
const sx_log_entry& sx_log_at(std::size_t i);
extern unsigned sx_log_bad_use; // entries outside a session
#endif
void sx_log_crash(std::uint64_t durable_epoch); // lose everything after this epoch
extern bool sx_log_scatter;                     // deal the recovered entries to the parallel cursors in any way
void sx_log_freeze();                           // what a crash at this moment leaves
std::uint64_t sx_log_thaw();                    // take that for the log; returns the durable epoch then
void sx_log_reset();
std::uint64_t sx_log_durable();
std::uint64_t sx_log_epoch();        // the epoch last told to the log
extern unsigned sx_log_epoch_jumps; // how often it did not advance by one
std::size_t sx_log_size();

// --- modelled queue ---
extern const void* sx_q_popped[32];
extern unsigned sx_q_pops, sx_q_pushes;

