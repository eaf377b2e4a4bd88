// P31: durability notifications.
#include "common.h"
#include "concurrency_control/include/epoch.h"
#include "database/include/tx_state_notification.h"
#include "shirakami/tx_state_notification.h"
using namespace hx;

namespace {
constexpr int MAXL = 3, MAXN = 16;
struct lst {
    std::uint64_t got[MAXN];
    int n;
} ls[MAXL];
void got(int l, std::uint64_t d) {
    if (ls[l].n < MAXN) { ls[l].got[ls[l].n] = d; }
    ls[l].n++;
}
} // namespace

// listeners and notifications in any order, any positions
extern "C" void h_notify() {
    int nl = 0;
    int skip = 0; // what each listener has got at its registration
#ifdef PWAL
    skip = 1;
#endif
    std::uint64_t want[MAXL][MAXN];
    int nw[MAXL] = {};
    for (int i = 0; i < 4; i++) {
        std::uint64_t op = sx_choose(3, "op");
        if (op == 0) {
            if (nl == MAXL) { sx_end(); }
            int me = nl++;
            auto rc = register_durability_callback([me](std::uint64_t d) { got(me, d); });
            sx_assert(rc == Status::OK, "registering succeeds");
            if (skip != 0) {
#ifdef PWAL
                want[me][nw[me]++] = epoch::get_datastore_durable_epoch();
#endif
            }
        } else if (op == 1) {
            std::uint64_t d = sx_u64(64, "durable");
            call_durability_callbacks(d);
            for (int l = 0; l < nl; l++) { want[l][nw[l]++] = d; }
        } else {
#ifndef PWAL
            // an empty callable is accepted and ignored
            sx_assert(register_durability_callback(durability_callback_type{}) == Status::OK, "registering succeeds");
#endif
        }
        for (int l = 0; l < nl; l++) {
            sx_assert(ls[l].n == nw[l], "every listener is told every position once");
            for (int k = 0; k < nw[l]; k++) { sx_assert(ls[l].got[k] == want[l][k], "every listener is told the real position"); }
        }
    }
    clear_durability_callbacks();
    call_durability_callbacks(1);
    for (int l = 0; l < nl; l++) { sx_assert(ls[l].n == nw[l], "removed listeners are not told anything"); }
    sx_witness(0);
}

// registering races with a notification
namespace {
void reg(void* p) {
    auto me = static_cast<int>(reinterpret_cast<std::uintptr_t>(p));
    register_durability_callback([me](std::uint64_t d) { got(me, d); });
}
void reached(std::uint64_t d) {
#ifdef PWAL
    epoch::set_datastore_durable_epoch(d);
#else
    call_durability_callbacks(d);
#endif
}
void notify(void*) {
    reached(100);
    reached(101);
}
} // namespace
extern "C" void h_notify_race() {
    reg(nullptr);
    int base = ls[0].n;
    sx_client(reg, reinterpret_cast<void*>(1));
    sx_client(notify, nullptr);
    sx_client(reg, reinterpret_cast<void*>(2));
    sx_run_clients(SX_TIER ? 4 : 3);
    sx_assert(ls[0].n == base + 2 && ls[0].got[base] == 100 && ls[0].got[base + 1] == 101, "an early listener gets everything in order");
    for (int l = 1; l < 3; l++) {
#ifdef PWAL
        // from the position told at the registration on, nothing is left out
        sx_assert(ls[l].n >= 1 && ls[l].got[ls[l].n - 1] == 101, "the last position is told");
        for (int k = 1; k < ls[l].n; k++) {
            auto was = ls[l].got[k - 1];
            sx_assert(ls[l].got[k] == was || ls[l].got[k] == (was < 100 ? 100U : 101U), "a late listener gets the rest in order");
        }
        continue;
#endif
        sx_assert(ls[l].n <= base + 2, "nothing is told twice");
        for (int k = base; k < ls[l].n; k++) {
            sx_assert(ls[l].got[ls[l].n - 1 - (k - base)] == static_cast<std::uint64_t>(101 - (k - base)), "a late listener gets the rest in order");
        }
    }
    reached(102);
    for (int l = 0; l < 3; l++) { sx_assert(ls[l].got[ls[l].n - 1] == 102, "all listeners stay registered"); }
    sx_witness(0);
}

#ifdef PWAL
// the running database: positions are durable, in order, complete
extern "C" void h_notify_db() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    int nl = 0;
    std::uint64_t last[MAXL] = {};
    int seen[MAXL] = {};
    for (int i = 0; i < (SX_TIER ? 6 : 5); i++) {
        std::uint64_t op = sx_choose(4, "op");
        std::uint64_t before = sx_log_durable();
        int cnt[MAXL];
        for (int l = 0; l < nl; l++) { cnt[l] = ls[l].n; }
        int old = nl;
        if (op == 0) {
            if (nl == MAXL) { sx_end(); }
            int me = nl++;
            register_durability_callback([me](std::uint64_t d) {
                sx_assert(d <= sx_log_durable(), "only durable positions are told");
                got(me, d);
            });
            sx_assert(ls[me].n == 1 && ls[me].got[0] == sx_log_durable(), "registering tells the current position");
        } else if (op == 1) {
            put1(t, st, "a", "b");
        } else if (op == 2) {
            sx_tick();
        } else {
            sx_bg_step(0);
        }
        for (int l = 0; l < old; l++) {
            if (sx_log_durable() != before) {
                sx_assert(ls[l].n > cnt[l] && ls[l].got[ls[l].n - 1] == sx_log_durable(), "a new durable position is told to everybody");
            }
        }
        for (int l = 0; l < nl; l++) {
            for (; seen[l] < ls[l].n && seen[l] < MAXN; seen[l]++) {
                sx_assert(ls[l].got[seen[l]] >= last[l], "positions never go back");
                last[l] = ls[l].got[seen[l]];
            }
        }
    }
    fin(false);
    sx_witness(0);
}
#endif
