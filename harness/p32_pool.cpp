// P32: worker pool.
#include "database/include/thread_pool.h"
#include "sx.h"
using namespace shirakami;

namespace {
int tasks[8];
thread_task* task(int i) { return reinterpret_cast<thread_task*>(&tasks[i]); }
unsigned npush;       // tasks pushed before stopping began
unsigned workers;
void check_taken(unsigned from, unsigned n, unsigned base) {
    for (unsigned t = 0; t < n; t++) {
        unsigned c = 0;
        for (unsigned i = from; i < sx_q_pops; i++) { c += sx_q_popped[i] == task(static_cast<int>(base + t)) ? 1 : 0; }
        sx_assert(c == 1, "every task pushed before stopping was taken exactly once");
    }
}
void owner(void*) {
    thread_pool::init(workers);
    for (unsigned i = 0; i < npush; i++) { thread_pool::push_task_queue(task(static_cast<int>(i))); }
    thread_pool::fin();
    sx_nopreempt g;
    sx_assert(sx_bg_count() == 0, "all workers have ended when stopping returns");
    check_taken(0, npush, 0);
}
void late(void*) { thread_pool::push_task_queue(task(7)); }
} // namespace

extern "C" void h_pool() {
    npush = static_cast<unsigned>(sx_choose(3, "tasks"));
    workers = 1 + static_cast<unsigned>(sx_choose(2, "workers"));
    sx_client(owner, nullptr);
    sx_run_clients(SX_TIER ? 4 : 3, true, 0);
    sx_assert(thread_pool::get_task_queue().empty(), "nothing is left in the queue");
    sx_assert(sx_q_pops == npush, "nothing else was taken");
    sx_assert(!thread_pool::get_running(), "the pool is stopped");
    sx_witness(0);
}
// a task pushed while stopping is taken at most once and never lost; the pool can be started again
extern "C" void h_pool_race() {
    npush = 1;
    workers = 1 + static_cast<unsigned>(sx_choose(2, "workers"));
    sx_client(owner, nullptr);
    sx_client(late, nullptr);
    sx_run_clients(SX_TIER ? 4 : 3, true, 0);
    unsigned c = 0;
    for (unsigned i = 0; i < sx_q_pops; i++) { c += sx_q_popped[i] == task(7) ? 1 : 0; }
    sx_assert(c <= 1 && thread_pool::get_task_queue().empty() == (c == 1), "a task pushed while stopping is taken once or still queued");
    if (c == 0) { sx_witness(1); }
    unsigned before = sx_q_pops;
    thread_pool::init(1);
    thread_pool::push_task_queue(task(5));
    thread_pool::fin();
    sx_assert(thread_pool::get_task_queue().empty() && sx_q_pops == before + 2 - c, "a restarted pool takes what is queued");
    check_taken(before, 1, 5);
    sx_assert(sx_bg_count() == 0, "all workers have ended when stopping returns");
    sx_witness(0);
}
// any number of tasks and workers under the plain schedule
extern "C" void h_pool_many() {
    npush = static_cast<unsigned>(sx_choose(8, "tasks"));
    workers = static_cast<unsigned>(sx_choose(6, "workers"));
    if (workers == 0 && npush != 0) { sx_end(); }
    owner(nullptr);
    sx_assert(thread_pool::get_task_queue().empty() && sx_q_pops == npush, "nothing is left in the queue");
    sx_witness(0);
}
