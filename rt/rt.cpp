// Modelled runtime: threads and locks, the parts of the C++ library that live in shared
// objects, the index (yakushima) and the log (limestone). Compiled to bitcode and linked
// with the code under check; the same bitcode is used for symbolic execution and replay.
#include <atomic>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <vector>
#include <pthread.h>
#include <time.h>
#include "sx.h"
#include "yakushima/include/kvs.h"
#ifdef PWAL
#include "limestone/api/datastore.h"
#endif

template class std::basic_string<char>;

// ------------------------------------------------------------------------------------------
// memory

std::size_t sx_live = 0; // allocated and not freed yet
static void* take(std::size_t n) { sx_live++; return sx_alloc(n); }
static void give(void* p) {
    if (p != nullptr) { sx_live--; }
    sx_free(p);
}
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, std::align_val_t) { return take(n); }
void* operator new[](std::size_t n, std::align_val_t) { return take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }

// ------------------------------------------------------------------------------------------
// choices

std::uint64_t sx_range(std::uint64_t n, const char* name) {
    if (n <= 1) { return 0; }
    std::uint64_t v = sx_u64(8, name);
    sx_assume(v < n);
    return v;
}
std::uint64_t sx_choose(std::uint64_t n, const char* name) {
    if (n <= 1) { return 0; }
    return sx_conc(sx_range(n, name));
}

// ------------------------------------------------------------------------------------------
// threads

enum { TH_RUN, TH_SPIN, TH_LOCK, TH_SLEEP, TH_DONE }; // SPIN: polls, LOCK: waits for an unlock or a thread's end
struct sxrt_thread {
    int st;
    bool bg;
    bool look; // something changed since it began to poll
    std::uint64_t resumer;
    void (*fn)(void*);
    void* arg;
};
static constexpr unsigned MAXTH = 24;
static sxrt_thread sx_th[MAXTH];
static unsigned sx_nth = 1; // 0 is the main thread
static bool sx_pre = false; // clients are running under the explored schedule
static bool sx_pre_bg = false;
static unsigned sx_budget = 0, sx_wakes = 0;
static unsigned sx_nopre = 0;
static unsigned sx_idle_rounds = 0;
unsigned sx_spin_limit = 60;
std::uint64_t sx_awake = 0;
bool sx_blocked_is_failure = true;
unsigned long sx_log_errors = 0;
int sx_log_error_line = 0;
const char* sx_log_error_file = nullptr;

sx_nopreempt::sx_nopreempt() { sx_nopre++; }
sx_nopreempt::~sx_nopreempt() { sx_nopre--; }

static void sxrt_blocked() {
    if (sx_blocked_is_failure) { sx_fail("a call never returns: every thread waits"); }
    sx_end();
}

static void sxrt_resume(unsigned i) { // cooperative: run background thread i until it parks
    sx_th[i].resumer = sx_cur();
    sx_th[i].st = TH_RUN;
    sx_switch(i);
}

static void sxrt_bg_round(bool skip = false) {
    for (unsigned i = 1; i < sx_nth; i++) {
        if (skip && sx_th[i].st == TH_RUN) { continue; } // preempted, goes on by the explored schedule only
        if (sx_th[i].bg && sx_th[i].st != TH_DONE && i != sx_cur()) { sxrt_resume(i); }
    }
}

// explored schedule: hand over to some other thread that can run
static void sxrt_handover() {
    for (;;) {
        unsigned c[MAXTH];
        unsigned n = 0;
        unsigned me = static_cast<unsigned>(sx_cur());
        bool clients_left = false;
        for (unsigned i = 1; i < sx_nth; i++) {
            if (!sx_th[i].bg && sx_th[i].st != TH_DONE) { clients_left = true; }
            if (i != me && sx_th[i].st == TH_RUN && (sx_pre_bg || !sx_th[i].bg)) { c[n++] = i; }
        }
        if (!clients_left) {
            if (me == 0) { return; }
            sx_switch(0);
            return;
        }
        if (n == 0 && sx_th[me].st == TH_RUN) { return; }
        if (n == 0) {
            // everybody waits: let background threads make progress, then the polling threads look again in turn
            if (++sx_idle_rounds > sx_spin_limit) { sxrt_blocked(); }
            bool pre = sx_pre;
            sx_pre = false;
            for (unsigned i = 1; i < sx_nth; i++) {
                if (sx_th[i].bg && i != me && (sx_th[i].st == TH_SLEEP || (!sx_pre_bg && sx_th[i].st != TH_DONE))) { sxrt_resume(i); }
            }
            sx_pre = pre;
            bool again = false;
            for (unsigned i = 1; i < sx_nth; i++) {
                if (sx_th[i].st == TH_RUN && i != me && (sx_pre_bg || !sx_th[i].bg)) { again = true; }
            }
            if (sx_th[me].st == TH_RUN) { return; }
            if (again) { continue; }
            for (unsigned d = 1; d <= sx_nth; d++) {
                unsigned i = (me + d) % sx_nth;
                if (i != 0 && sx_th[i].st == TH_SPIN && (sx_pre_bg || !sx_th[i].bg)) {
                    sx_th[i].st = TH_RUN;
                    if (i != me) { sx_switch(i); }
                    return;
                }
            }
            continue;
        }
        unsigned k = static_cast<unsigned>(sx_choose(n, "next_thread"));
        sx_switch(c[k]);
        return;
    }
}

static bool sx_wrote = false; // shared state changed since the last point
static void sxrt_progress() {
    if (!sx_pre && sx_cur() == 0) { sx_idle_rounds = 0; }
    sx_wrote = true;
    for (unsigned i = 1; i < sx_nth; i++) {
        if (sx_th[i].st == TH_LOCK && (sx_pre_bg || !sx_th[i].bg)) { sx_th[i].st = TH_RUN; }
    }
}

// the running thread cannot go on until another thread acts
static void sxrt_wait(int st) {
    unsigned me = static_cast<unsigned>(sx_cur());
    if (sx_pre) {
        sx_th[me].st = st == TH_SLEEP && !sx_th[me].bg ? TH_SPIN : st;
        sx_th[me].look = false;
        sxrt_handover();
        return;
    }
    if (sx_th[me].bg) {
        sx_th[me].st = st;
        sx_switch(sx_th[me].resumer);
        return;
    }
    if (++sx_idle_rounds > sx_spin_limit) { sxrt_blocked(); }
    sxrt_bg_round();
}

static void sxrt_entry(void* p) {
    auto* t = static_cast<sxrt_thread*>(p);
    t->fn(t->arg);
    t->st = TH_DONE;
    sx_idle_rounds = 0;
    sxrt_progress();
    if (sx_pre) { sxrt_handover(); }
    sx_switch(t->resumer);
    sx_fail("finished thread resumed");
}

static unsigned sxrt_spawn(void (*fn)(void*), void* arg, bool bg) {
    if (sx_nth >= MAXTH) { sx_fail("model limit: too many threads"); }
    unsigned id = sx_nth++;
    sx_th[id].st = TH_RUN;
    sx_th[id].bg = bg;
    sx_th[id].resumer = sx_cur();
    sx_th[id].fn = fn;
    sx_th[id].arg = arg;
    if (sx_spawn_raw(sxrt_entry, &sx_th[id]) != id) { sx_fail("model: thread numbering"); }
    return id;
}

// a thread that only reads for so long polls without pausing
static unsigned sx_reads = 0;
static unsigned sx_reader = 0;
extern "C" void __sx_point() {
    if (sx_reader != static_cast<unsigned>(sx_cur())) {
        sx_reader = static_cast<unsigned>(sx_cur());
        sx_reads = 0;
    }
    if (++sx_reads > 2000 && sx_nopre == 0) {
        sx_reads = 0;
        sxrt_wait(TH_SPIN);
        return;
    }
    if (!sx_pre) { return; }
    if (sx_wrote) {
        sx_wrote = false;
        for (unsigned i = 1; i < sx_nth; i++) { sx_th[i].look = true; }
    }
    if (sx_nopre != 0) { return; }
    if (sx_budget == 0) { return; }
    unsigned c[MAXTH];
    unsigned n = 0;
    unsigned me = static_cast<unsigned>(sx_cur());
    for (unsigned i = 1; i < sx_nth; i++) {
        if (i == me) { continue; }
        if (sx_th[i].st == TH_RUN || (sx_th[i].st == TH_SPIN && sx_th[i].look && (sx_pre_bg || !sx_th[i].bg)) || (sx_th[i].st == TH_SLEEP && sx_wakes > 0)) { c[n++] = i; }
    }
    if (n == 0) { return; }
    unsigned k = static_cast<unsigned>(sx_choose(n + 1, "preempt"));
    if (k == 0) { return; }
    sx_note("PREEMPT", c[k - 1]);
    sx_budget--;
    unsigned t = c[k - 1];
    if (sx_th[t].st == TH_SLEEP) { sx_wakes--; }
    sx_th[t].st = TH_RUN;
    sx_switch(t);
}

extern "C" void __sx_point_w() {
    __sx_point();
    sx_reads = 0;
    sx_wrote = sx_pre;
}

extern "C" void sx_pause() { sxrt_wait(TH_SPIN); }
std::size_t sx_bg_count() {
    std::size_t n = 0;
    for (unsigned i = 1; i < sx_nth; i++) { n += sx_th[i].bg && sx_th[i].st != TH_DONE; }
    return n;
}
void sx_bg_step(std::size_t k) {
    for (unsigned i = 1; i < sx_nth; i++) {
        if (sx_th[i].bg && sx_th[i].st != TH_DONE) {
            if (k-- == 0) { sxrt_resume(i); return; }
        }
    }
}
void sx_tick() {
    bool pre = sx_pre;
    sx_pre = false;
    sxrt_bg_round(pre && sx_pre_bg);
    sx_pre = pre;
    sx_wrote = sx_pre;
}
void sx_client(void (*fn)(void*), void* arg) { sxrt_spawn(fn, arg, false); }
void sx_run_clients(unsigned preempt, bool with_bg, unsigned wakes) {
    sx_budget = preempt;
    sx_pre_bg = with_bg;
    sx_wakes = with_bg ? wakes : 0;
    sx_idle_rounds = 0;
    for (unsigned i = 1; i < sx_nth; i++) {
        if (sx_th[i].bg && sx_th[i].st != TH_DONE) { sx_th[i].st = with_bg ? TH_SLEEP : TH_SPIN; }
    }
    if (with_bg) {
        unsigned b = 0;
        for (unsigned i = 1; i < sx_nth; i++) {
            if (sx_th[i].bg && sx_th[i].st != TH_DONE && (sx_awake >> b++ & 1U) != 0) { sx_th[i].st = TH_RUN; }
        }
    }
    // background threads that are not part of the schedule stay parked
    if (!with_bg) {
        for (unsigned i = 1; i < sx_nth; i++) {
            if (sx_th[i].bg && sx_th[i].st != TH_DONE) { sx_th[i].st = TH_SLEEP; }
        }
    }
    sx_pre = true;
    sxrt_handover();
    sx_pre = false;
    sx_pre_bg = false;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    __sx_point();
    while (w[0] != 0) {
        if (w[1] == static_cast<int>(sx_cur()) + 1) { sx_fail("mutex locked twice by one thread"); }
        sxrt_wait(TH_LOCK);
    }
    w[0] = 1;
    w[1] = static_cast<int>(sx_cur()) + 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    __sx_point();
    if (w[0] != 0) { return 16; }
    w[0] = 1;
    w[1] = static_cast<int>(sx_cur()) + 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    if (w[0] == 0) { sx_fail("unlock of a mutex that is not locked"); }
    w[0] = 0;
    w[1] = 0;
    sxrt_progress();
    __sx_point();
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    __sx_point();
    while (w[0] != 0) {
        if (w[0] == static_cast<int>(sx_cur()) + 1) { sx_fail("shared lock requested by the exclusive holder"); }
        sxrt_wait(TH_LOCK);
    }
    w[1] = w[1] + 1;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    __sx_point();
    while (w[0] != 0 || w[1] != 0) {
        if (w[0] == static_cast<int>(sx_cur()) + 1) { sx_fail("exclusive lock requested by its holder"); }
        sxrt_wait(TH_LOCK);
    }
    w[0] = static_cast<int>(sx_cur()) + 1;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    if (w[0] != 0 || w[1] != 0) { return 16; }
    w[0] = static_cast<int>(sx_cur()) + 1;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    if (w[0] != 0) { return 16; }
    w[1] = w[1] + 1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    auto* w = reinterpret_cast<volatile int*>(m);
    if (w[0] != 0) { w[0] = 0; }
    else if (w[1] > 0) { w[1] = w[1] - 1; }
    else { sx_fail("unlock of a lock that is not held"); }
    sxrt_progress();
    __sx_point();
    return 0;
}
int nanosleep(const timespec*, timespec*) {
    sxrt_wait(TH_SLEEP);
    return 0;
}
int sched_yield() noexcept { sxrt_wait(TH_SPIN); return 0; }
}

extern "C" void* sx_thread_keep; // unused
struct sxrt_start { std::thread::_State* s; };
static void sxrt_thread_main(void* p) {
    auto* s = static_cast<std::thread::_State*>(p);
    s->_M_run();
    delete s; // NOLINT
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    unsigned id = sxrt_spawn(sxrt_thread_main, s.release(), true);
    _M_id = thread::id(static_cast<pthread_t>(id));
}
void thread::join() {
    auto id = static_cast<unsigned>(_M_id._M_thread);
    if (id == 0 || id >= sx_nth) { sx_fail("join of a thread that was never started"); }
    while (sx_th[id].st != TH_DONE) { sxrt_wait(TH_LOCK); }
    _M_id = thread::id();
}
void thread::detach() { _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return 1; }
} // namespace std

// queue bookkeeping
const void* sx_q_popped[32];
unsigned sx_q_pops = 0, sx_q_pushes = 0;
extern "C" void sx_queue_event(int pop, const void* e) {
    if (pop == 0) { sx_q_pushes++; return; }
    if (sx_q_pops < 32) { sx_q_popped[sx_q_pops] = e; }
    sx_q_pops++;
}

extern "C" pthread_t pthread_self() noexcept { return static_cast<pthread_t>(sx_cur() + 1); }

// ------------------------------------------------------------------------------------------
// library pieces

namespace std {
using rb = _Rb_tree_node_base;
rb* _Rb_tree_increment(rb* x) noexcept {
    if (x->_M_right != nullptr) {
        x = x->_M_right;
        while (x->_M_left != nullptr) { x = x->_M_left; }
        return x;
    }
    rb* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) { x = y; }
    return x;
}
const rb* _Rb_tree_increment(const rb* x) noexcept { return _Rb_tree_increment(const_cast<rb*>(x)); }
rb* _Rb_tree_decrement(rb* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) { return x->_M_right; }
    if (x->_M_left != nullptr) {
        rb* y = x->_M_left;
        while (y->_M_right != nullptr) { y = y->_M_right; }
        return y;
    }
    rb* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const rb* _Rb_tree_decrement(const rb* x) noexcept { return _Rb_tree_decrement(const_cast<rb*>(x)); }
// ordered but not balanced
void _Rb_tree_insert_and_rebalance(const bool left, rb* x, rb* p, rb& h) noexcept {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) { h._M_left = x; }
    } else {
        p->_M_right = x;
        if (p == h._M_right) { h._M_right = x; }
    }
}
rb* _Rb_tree_rebalance_for_erase(rb* const z, rb& h) noexcept {
    // leftmost / rightmost
    if (h._M_left == z) { h._M_left = z->_M_right == nullptr ? z->_M_parent : rb::_S_minimum(z->_M_right); }
    if (h._M_right == z) { h._M_right = z->_M_left == nullptr ? z->_M_parent : rb::_S_maximum(z->_M_left); }
    auto replace = [&h](rb* u, rb* v) {
        if (h._M_parent == u) { h._M_parent = v; }
        else if (u->_M_parent->_M_left == u) { u->_M_parent->_M_left = v; }
        else { u->_M_parent->_M_right = v; }
        if (v != nullptr) { v->_M_parent = u->_M_parent; }
    };
    if (z->_M_left == nullptr) { replace(z, z->_M_right); }
    else if (z->_M_right == nullptr) { replace(z, z->_M_left); }
    else {
        rb* y = rb::_S_minimum(z->_M_right);
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
} // namespace __detail
void __throw_bad_alloc() { sx_fail("exception: bad_alloc"); }
void __throw_bad_array_new_length() { sx_fail("exception: bad_array_new_length"); }
void __throw_bad_cast() { sx_fail("exception: bad_cast"); }
void __throw_bad_function_call() { sx_fail("exception: bad_function_call"); }
void __throw_length_error(const char*) { sx_fail("exception: length_error"); }
void __throw_logic_error(const char*) { sx_fail("exception: logic_error"); }
void __throw_invalid_argument(const char*) { sx_fail("exception: invalid_argument"); }
void __throw_out_of_range(const char*) { sx_fail("exception: out_of_range"); }
void __throw_out_of_range_fmt(const char*, ...) { sx_fail("exception: out_of_range"); }
void __throw_system_error(int) { sx_fail("exception: system_error"); }
void terminate() noexcept { sx_fail("std::terminate called"); }
} // namespace std
extern "C" {
void abort() noexcept { sx_fail("abort called"); }
[[noreturn]] void __cxa_pure_virtual() { sx_fail("pure virtual function called"); }
void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { sx_fail("assertion in the code failed"); }
char* getenv(const char*) noexcept { return nullptr; }
long syscall(long, ...) noexcept { return 4242; }
static int sxrt_errno;
int* __errno_location() noexcept { return &sxrt_errno; }
int strcmp(const char* a, const char* b) noexcept {
    while (*a != 0 && *a == *b) { ++a; ++b; }
    return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
void sx_log_error(const char* f, int line) { sx_log_errors++; sx_log_error_line = line; sx_log_error_file = f; }
[[noreturn]] void sx_log_fatal(const char*, int) { sx_fail("LOG(FATAL): the process would end"); }
void _ZSt21ios_base_library_initv() {}
}
std::ostream* sx_null_stream = nullptr;
int sx_dummy_flag = 0;
#ifndef SX_NATIVE
char __libc_single_threaded = 1;
#endif

// files: nothing is ever touched; removals are recorded
unsigned sx_fs_removed = 0;
bool sx_fs_exists = true;
std::string sx_fs_last; // what was removed last
namespace std::filesystem {
path::_List::_List() {}
path::_List::_List(const _List&) {}
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
void path::_M_split_cmpts() {}
path& path::operator=(const path& o) { _M_pathname = o._M_pathname; return *this; }
file_status status(const path&, error_code&) noexcept { return file_status(sx_fs_exists ? file_type::directory : file_type::not_found); }
file_status status(const path&) { return file_status(sx_fs_exists ? file_type::directory : file_type::not_found); }
uintmax_t remove_all(const path& p) {
    sx_fs_removed++;
    sx_fs_last = p.native();
    return 0;
}
bool create_directories(const path&) { return true; }
bool create_directory(const path&) { return true; }
} // namespace std::filesystem
namespace std { inline namespace _V2 {
const error_category& system_category() noexcept {
    static char c[64];
    return *reinterpret_cast<const error_category*>(c);
}
} }

// ------------------------------------------------------------------------------------------
// index

namespace yakushima {
struct sxi_ent { std::string k; void* v; };
struct sxi_node {
    node_version64 nv;
    std::string low; // lower separator (empty for the first node)
    std::vector<sxi_ent> e;
    sxi_node* next{nullptr};
};
struct sxi_tree {
    std::string name;
    sxi_node* head;
    tree_instance ti;
};
static std::vector<sxi_tree*>* sxi_trees;
static unsigned long sxi_sessions;
static char sxi_tok[64];

static sxi_tree* sxi_find(std::string_view n) {
    if (sxi_trees == nullptr) { return nullptr; }
    for (auto* t : *sxi_trees) {
        if (t->name == n) { return t; }
    }
    return nullptr;
}
static sxi_node* sxi_leaf(sxi_tree* t, std::string_view k) {
    auto* n = t->head;
    while (n->next != nullptr && !(k < std::string_view(n->next->low))) { n = n->next; }
    return n;
}
static void sxi_drop(sxi_tree* t) {
    for (auto* n = t->head; n != nullptr;) { auto* x = n->next; delete n; n = x; }
    delete t;
}
void init() { if (sxi_trees == nullptr) { sxi_trees = new std::vector<sxi_tree*>; } }
void fin() {
    if (sxi_trees == nullptr) { return; }
    for (auto* t : *sxi_trees) { sxi_drop(t); }
    delete sxi_trees;
    sxi_trees = nullptr;
    sxi_sessions = 0;
}
status enter(Token& t) {
    for (unsigned i = 0; i < 64; i++) {
        if ((sxi_sessions >> i & 1) == 0) { sxi_sessions |= 1UL << i; t = &sxi_tok[i]; return status::OK; }
    }
    return status::WARN_MAX_SESSIONS;
}
status leave(Token t) {
    auto i = static_cast<char*>(t) - sxi_tok;
    if (i < 0 || i >= 64) { return status::WARN_INVALID_TOKEN; }
    sxi_sessions &= ~(1UL << i);
    return status::OK;
}
status create_storage(std::string_view n) {
    __sx_point();
    sx_nopreempt np;
    if (sxi_trees == nullptr) { init(); }
    if (sxi_find(n) != nullptr) { return status::WARN_UNIQUE_RESTRICTION; }
    auto* t = new sxi_tree;
    t->name = std::string(n);
    t->head = new sxi_node;
    std::size_t p = 0;
    while (p < sxi_trees->size() && (*sxi_trees)[p]->name < t->name) { p++; }
    sxi_trees->insert(sxi_trees->begin() + static_cast<long>(p), t);
    return status::OK;
}
status delete_storage(std::string_view n) {
    __sx_point();
    sx_nopreempt np;
    for (std::size_t i = 0; sxi_trees != nullptr && i < sxi_trees->size(); i++) {
        if ((*sxi_trees)[i]->name == n) {
            sxi_drop((*sxi_trees)[i]);
            sxi_trees->erase(sxi_trees->begin() + static_cast<long>(i));
            return status::OK;
        }
    }
    return status::WARN_NOT_EXIST;
}
status find_storage(std::string_view n) {
    __sx_point();
    return sxi_find(n) != nullptr ? status::OK : status::WARN_NOT_EXIST;
}
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    out.clear();
    if (sxi_trees == nullptr || sxi_trees->empty()) { return status::WARN_NOT_EXIST; }
    for (auto* t : *sxi_trees) { out.emplace_back(t->name, &t->ti); }
    return status::OK;
}
static storage sxi_st;
storage* storage::get_storages() { return &sxi_st; }
void storage::store_root_ptr(void* p) {
    // clearing the root of all storages
    if (p == nullptr && sxi_trees != nullptr) { sxi_trees->clear(); }
}

extern "C" {
int sxi_get(const char* s, std::size_t sl, const char* k, std::size_t kl, void** v, node_version64** nvp, node_version64_body* nvb) {
    __sx_point();
    sx_nopreempt np;
    auto* t = sxi_find({s, sl});
    if (t == nullptr) { return static_cast<int>(status::WARN_STORAGE_NOT_EXIST); }
    std::string_view key{k, kl};
    auto* n = sxi_leaf(t, key);
    for (auto& e : n->e) {
        if (std::string_view(e.k) == key) { *v = e.v; return static_cast<int>(status::OK); }
    }
    *nvp = &n->nv;
    *nvb = n->nv.get_stable_version();
    return static_cast<int>(status::WARN_NOT_EXIST);
}
int sxi_put(const char* s, std::size_t sl, const char* k, std::size_t kl, void* v, bool unique, node_version64** m, node_version64** c) {
    __sx_point();
    sx_nopreempt np;
    auto* t = sxi_find({s, sl});
    if (t == nullptr) { return static_cast<int>(status::WARN_STORAGE_NOT_EXIST); }
    std::string_view key{k, kl};
    auto* n = sxi_leaf(t, key);
    std::size_t p = 0;
    for (; p < n->e.size(); p++) {
        if (std::string_view(n->e[p].k) == key) {
            if (unique) { return static_cast<int>(status::WARN_UNIQUE_RESTRICTION); }
            n->e[p].v = v;
            return static_cast<int>(status::OK);
        }
        if (key < std::string_view(n->e[p].k)) { break; }
    }
    if (n->e.size() < SX_LEAF) {
        n->e.insert(n->e.begin() + static_cast<long>(p), sxi_ent{std::string(key), v});
        n->nv.bump_insert_delete();
        *m = &n->nv;
        return static_cast<int>(status::OK);
    }
    // split: upper half moves to a new node
    n->e.insert(n->e.begin() + static_cast<long>(p), sxi_ent{std::string(key), v});
    auto* x = new sxi_node;
    std::size_t h = n->e.size() / 2;
    for (std::size_t i = h; i < n->e.size(); i++) { x->e.push_back(n->e[i]); }
    n->e.resize(h);
    x->low = x->e[0].k;
    x->next = n->next;
    n->next = x;
    n->nv.bump_insert_delete();
    n->nv.bump_split();
    x->nv.copy_from(n->nv);
    *m = &n->nv;
    *c = &x->nv;
    return static_cast<int>(status::OK);
}
int sxi_remove(const char* s, std::size_t sl, const char* k, std::size_t kl) {
    __sx_point();
    sx_nopreempt np;
    auto* t = sxi_find({s, sl});
    if (t == nullptr) { return static_cast<int>(status::WARN_STORAGE_NOT_EXIST); }
    std::string_view key{k, kl};
    auto* n = sxi_leaf(t, key);
    for (std::size_t p = 0; p < n->e.size(); p++) {
        if (std::string_view(n->e[p].k) == key) {
            n->e.erase(n->e.begin() + static_cast<long>(p));
            n->nv.bump_insert_delete();
            return static_cast<int>(status::OK);
        }
    }
    return static_cast<int>(status::OK_NOT_FOUND);
}
}
static bool sxi_after_l(std::string_view k, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) { return true; }
    if (le == scan_endpoint::INCLUSIVE) { return !(k < l); }
    return l < k;
}
static bool sxi_before_r(std::string_view k, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) { return true; }
    if (re == scan_endpoint::INCLUSIVE) { return !(r < k); }
    return k < r;
}
// does node n (covering [low, high)) intersect the range?
static bool sxi_meets(sxi_node* n, bool first, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re) {
    if (le != scan_endpoint::INF && n->next != nullptr && !(l < std::string_view(n->next->low))) { return false; }
    if (!first && re != scan_endpoint::INF && !sxi_before_r(n->low, r, re)) { return false; }
    return true;
}
void sxi_scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re, std::size_t max,
              bool rev, int& rc, const std::function<void(const std::string&, void*)>& f,
              std::vector<std::pair<node_version64_body, node_version64*>>* nvec) {
    __sx_point();
    sx_nopreempt np;
    auto* t = sxi_find(st);
    if (t == nullptr) { rc = static_cast<int>(status::WARN_STORAGE_NOT_EXIST); return; }
    std::vector<sxi_node*> ns;
    for (auto* n = t->head; n != nullptr; n = n->next) {
        if (sxi_meets(n, n == t->head, l, le, r, re)) { ns.push_back(n); }
    }
    std::size_t cnt = 0;
    auto node = [&](sxi_node* n) {
        bool any = false;
        auto nb = n->nv.get_stable_version();
        std::size_t sz = n->e.size();
        for (std::size_t i = 0; i < sz; i++) {
            auto& e = n->e[rev ? sz - 1 - i : i];
            if (!sxi_after_l(e.k, l, le) || !sxi_before_r(e.k, r, re)) { continue; }
            f(e.k, e.v);
            if (nvec != nullptr) { nvec->emplace_back(nb, &n->nv); }
            any = true;
            if (max != 0 && ++cnt >= max) { return true; }
        }
        if (!any && nvec != nullptr) { nvec->emplace_back(nb, &n->nv); }
        return false;
    };
    if (rev) { for (std::size_t i = ns.size(); i-- > 0;) { if (node(ns[i])) { break; } } }
    else { for (auto* n : ns) { if (node(n)) { break; } } }
    rc = static_cast<int>(status::OK);
}

struct iscan_context {
    std::string st, l, r, last;
    scan_endpoint le, re;
    bool rev{false};
    bool any{false};    // last is valid
    sxi_node* cur{nullptr};
    node_version64_body ver{};
};
// next record after c->last in direction; enters nodes as needed
static status sxi_iadvance(iscan_context* c, void*& value, const iscan_cb& cb) {
    __sx_point();
    sx_nopreempt np;
    auto* t = sxi_find(c->st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    std::vector<sxi_node*> ns;
    for (auto* n = t->head; n != nullptr; n = n->next) {
        if (sxi_meets(n, n == t->head, c->l, c->le, c->r, c->re)) { ns.push_back(n); }
    }
    if (c->rev) { for (std::size_t i = 0; i < ns.size() / 2; i++) { std::swap(ns[i], ns[ns.size() - 1 - i]); } }
    bool started = c->cur == nullptr;
    for (auto* n : ns) {
        if (!started) {
            if (n != c->cur) { continue; }
            started = true;
            if (c->ver != n->nv.get_stable_version()) {
                c->ver = n->nv.get_stable_version();
                if (cb && cb(&n->nv, c->ver)) { return status::WARN_ABORTED_BY_USER; }
            }
        } else {
            c->cur = n;
            c->ver = n->nv.get_stable_version();
            if (cb && cb(&n->nv, c->ver)) { return status::WARN_ABORTED_BY_USER; }
        }
        std::size_t sz = n->e.size();
        for (std::size_t i = 0; i < sz; i++) {
            auto& e = n->e[c->rev ? sz - 1 - i : i];
            if (!sxi_after_l(e.k, c->l, c->le) || !sxi_before_r(e.k, c->r, c->re)) { continue; }
            if (c->any && !(c->rev ? e.k < c->last : c->last < e.k)) { continue; }
            c->last = e.k;
            c->any = true;
            value = e.v;
            return status::OK;
        }
    }
    return status::OK_SCAN_END;
}
status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re, bool rev, bool,
                  iscan_context*& ctx, void*& value, const iscan_cb& cb) {
    if (sxi_find(st) == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto* c = new iscan_context;
    c->st = std::string(st); c->l = std::string(l); c->r = std::string(r);
    c->le = le; c->re = re; c->rev = rev;
    ctx = c;
    return sxi_iadvance(c, value, cb);
}
status iscan_next(iscan_context* c, void*& value, const iscan_cb& cb) { return sxi_iadvance(c, value, cb); }
void iscan_close(iscan_context* c) { delete c; }
} // namespace yakushima

// ------------------------------------------------------------------------------------------
// log

#ifdef PWAL
static std::vector<sx_log_entry>* sxl_log;
static std::uint64_t sxl_epoch, sxl_durable, sxl_recovered;
static std::vector<limestone::api::log_channel*>* sxl_ch;
static std::function<void(std::uint64_t)>* sxl_cb;
unsigned sx_log_bad_use = 0; // entries outside a session

std::size_t sx_log_size() { return sxl_log == nullptr ? 0 : sxl_log->size(); }
const sx_log_entry& sx_log_at(std::size_t i) { return (*sxl_log)[i]; }
std::uint64_t sx_log_durable() { return sxl_durable; }
std::uint64_t sx_log_epoch() { return sxl_epoch; }
unsigned sx_log_epoch_jumps = 0;
void sx_log_reset() {
    delete sxl_log;
    sxl_log = nullptr;
    sxl_epoch = sxl_durable = sxl_recovered = 0;
}
void sx_log_crash(std::uint64_t d) {
    if (sxl_log != nullptr) {
        auto* n = new std::vector<sx_log_entry>;
        for (auto& e : *sxl_log) { if (e.ep <= d) { n->push_back(e); } }
        delete sxl_log;
        sxl_log = n;
    }
    sxl_recovered = d;
}
static std::vector<sx_log_entry>* sxl_frozen;
static std::uint64_t sxl_frozen_d;
void sx_log_freeze() {
    delete sxl_frozen;
    sxl_frozen = new std::vector<sx_log_entry>;
    sxl_frozen_d = sxl_durable;
    if (sxl_log != nullptr) { for (auto& e : *sxl_log) { if (e.ep <= sxl_durable) { sxl_frozen->push_back(e); } } }
}
std::uint64_t sx_log_thaw() {
    delete sxl_log;
    sxl_log = sxl_frozen;
    sxl_frozen = nullptr;
    sxl_recovered = sxl_durable = sxl_epoch = sxl_frozen_d;
    return sxl_frozen_d;
}
static void sxl_add(limestone::api::log_channel* c, int kind, std::uint64_t st, std::string_view k, std::string_view v, const limestone::api::write_version_type& wv, std::vector<std::uint64_t> blobs = {}) {
    if (!c->open_) { sx_log_bad_use++; }
    if (sxl_log == nullptr) { sxl_log = new std::vector<sx_log_entry>; }
    sxl_log->push_back(sx_log_entry{c->ep_, kind, st, std::string(k), std::string(v), wv.get_major(), wv.get_minor(), std::move(blobs)});
}
namespace limestone::api {
void log_channel::begin_session() { open_ = true; ep_ = sxl_epoch; }
void log_channel::end_session() { open_ = false; }
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv) { sxl_add(this, 0, st, key, val, wv); }
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv, const std::vector<blob_id_type>& blobs) { sxl_add(this, 0, st, key, val, wv, blobs); }
void log_channel::remove_entry(storage_id_type st, std::string_view key, write_version_type wv) { sxl_add(this, 1, st, key, {}, wv); }
void log_channel::add_storage(storage_id_type st, write_version_type wv) { sxl_add(this, 2, st, {}, {}, wv); }
void log_channel::remove_storage(storage_id_type st, write_version_type wv) { sxl_add(this, 3, st, {}, {}, wv); }
datastore::datastore(const configuration&) { sxl_ch = new std::vector<log_channel*>; }
datastore::~datastore() {
    if (sxl_ch != nullptr) { for (auto* c : *sxl_ch) { delete c; } delete sxl_ch; sxl_ch = nullptr; }
    delete sxl_cb; sxl_cb = nullptr;
}
log_channel& datastore::create_channel() { auto* c = new log_channel; sxl_ch->push_back(c); return *c; }
void datastore::ready() {}
void datastore::recover() {}
epoch_t datastore::last_epoch() const { return sxl_recovered; }
void datastore::switch_epoch(epoch_t ep) {
    if (ep != sxl_epoch + 1) { sx_log_epoch_jumps++; }
    sxl_epoch = ep;
    epoch_t d = ep - 1;
    for (auto* c : *sxl_ch) { if (c->open_ && c->ep_ - 1 < d) { d = c->ep_ - 1; } }
    if (d > sxl_durable || sxl_durable == 0) {
        sxl_durable = d;
        if (sxl_cb != nullptr && *sxl_cb) { (*sxl_cb)(d); }
    }
}
void datastore::switch_available_boundary_version(write_version_type) {}
void datastore::add_persistent_callback(std::function<void(epoch_t)> cb) { delete sxl_cb; sxl_cb = new std::function<void(epoch_t)>(std::move(cb)); }
void datastore::remove_persistent_callback() { delete sxl_cb; sxl_cb = nullptr; }
sxl_future datastore::shutdown() {
    // a clean shutdown makes everything durable
    if (sxl_epoch > sxl_recovered) { sxl_recovered = sxl_epoch; }
    sxl_durable = sxl_epoch;
    return {};
}
} // namespace limestone::api
bool sx_log_scatter;
namespace limestone::api {
// with the last cursor the restoring threads are done
cursor::~cursor() {
    if (sx_log_scatter && left_ != nullptr && --*left_ == 0) { sx_budget = 0; delete left_; }
}
static bool sxl_less(const sxl_row& a, const sxl_row& b) { return a.st != b.st ? a.st < b.st : a.key < b.key; }
std::unique_ptr<cursor> snapshot::get_cursor() const {
    auto c = std::make_unique<cursor>();
    if (sxl_log == nullptr) { return c; }
    auto& lg = *sxl_log;
    for (std::size_t i = 0; i < lg.size(); i++) {
        if (lg[i].kind != 0) { continue; }
        // shadowed by a later write of the same key?
        bool last = true;
        for (std::size_t j = 0; j < lg.size() && last; j++) {
            if (i == j) { continue; }
            bool same = (lg[j].kind <= 1 && lg[j].st == lg[i].st && lg[j].k == lg[i].k) || (lg[j].kind == 3 && lg[j].st == lg[i].st);
            if (!same) { continue; }
            bool newer = lg[j].major != lg[i].major ? lg[j].major > lg[i].major : lg[j].minor != lg[i].minor ? lg[j].minor > lg[i].minor : j > i;
            if (newer) { last = false; }
        }
        if (!last) { continue; }
        sxl_row row{lg[i].st, lg[i].k, lg[i].v};
        std::size_t p = 0;
        while (p < c->rows_.size() && sxl_less(c->rows_[p], row)) { p++; }
        c->rows_.insert(c->rows_.begin() + static_cast<long>(p), row);
    }
    return c;
}
std::vector<std::unique_ptr<cursor>> snapshot::get_partitioned_cursors(std::size_t n) const {
    std::vector<std::unique_ptr<cursor>> out;
    auto all = get_cursor();
    for (std::size_t i = 0; i < n; i++) { out.emplace_back(std::make_unique<cursor>()); }
    if (sx_log_scatter) {
        auto* left = new std::size_t(n);
        for (auto& c : out) { c->left_ = left; }
    }
    std::size_t per = (all->rows_.size() + n - 1) / n;
    for (std::size_t i = 0; i < all->rows_.size(); i++) { out[sx_log_scatter ? sx_choose(n, "part") : i / per]->rows_.push_back(all->rows_[i]); }
    return out;
}
std::unique_ptr<snapshot> datastore::get_snapshot() const { return std::make_unique<snapshot>(); }
} // namespace limestone::api
#endif
