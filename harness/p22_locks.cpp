// P22: locks exclude each other, unlocked copies are never torn.
#include "concurrency_control/include/record.h"
#include "concurrency_control/include/tid.h"
#include "concurrency_control/include/version.h"
#include "concurrency_control/include/wp_meta.h"
#include "sx.h"
using namespace shirakami;

namespace {
int inside, entered;
void critical() {
    inside++;
    __sx_point();
    sx_assert(inside == 1, "at most one thread holds the lock");
    entered++;
    __sx_point();
    inside--;
}

tid_word word;
void tid_user(void* a) {
    auto n = reinterpret_cast<std::uintptr_t>(a);
    word.lock(n == 1);
    sx_assert(word.get_lock(), "a held lock shows as locked");
    sx_assert(word.get_lock_by_gc() == (n == 1), "the kind of holder shows");
    critical();
    // a holder may change the rest of the word
    tid_word w{word};
    w.set_tid(w.get_tid() + 1);
    w.set_lock(true);
    word.set_obj(w.get_obj());
    word.unlock();
}

Record* rec;
void record_user(void*) {
    rec->lock();
    critical();
    tid_word w{rec->get_tidw()};
    w.set_tid(w.get_tid() + 1);
    rec->set_tid(w);
    rec->unlock();
}
void stable_user(void*) {
    tid_word w = rec->get_stable_tidw();
    sx_assert(!w.get_lock(), "a stable word is not locked");
    sx_assert(w.get_latest() && w.get_absent(), "a stable word is a real one");
    sx_assert(w.get_tid() <= static_cast<std::uint64_t>(entered), "a stable word was there");
}

wp::wp_lock wl;
void wl_user(void*) {
    wl.lock();
    sx_assert(wp::wp_lock::is_locked(wl.load_obj()), "a held lock shows as locked");
    critical();
    wl.unlock();
}
} // namespace

extern "C" void h_lock_tid() {
    word.reset();
    inside = entered = 0;
    for (std::uintptr_t i = 0; i < 3; i++) { sx_client(tid_user, reinterpret_cast<void*>(i)); }
    sx_run_clients(SX_TIER ? 5 : 4);
    sx_assert(entered == 3, "everybody got the lock once");
    sx_assert(!word.get_lock() && !word.get_lock_by_gc(), "the lock is free in the end");
    sx_assert(word.get_tid() == 3, "no change made under the lock is lost");
    sx_witness(0);
}
extern "C" void h_lock_record() {
    inside = entered = 0;
    rec = new Record("k");
    sx_client(record_user, nullptr);
    sx_client(record_user, nullptr);
    sx_client(stable_user, nullptr);
    sx_run_clients(SX_TIER ? 5 : 4);
    sx_assert(entered == 2 && rec->get_tidw().get_tid() == 2 && !rec->get_tidw().get_lock(), "both changes are there and the lock is free");
    delete rec;
    sx_witness(0);
}
extern "C" void h_lock_wp() {
    inside = entered = 0;
    for (std::uintptr_t i = 0; i < 3; i++) { sx_client(wl_user, nullptr); }
    sx_run_clients(SX_TIER ? 6 : 5);
    sx_assert(entered == 3, "everybody got the lock once");
    sx_assert(!wp::wp_lock::is_locked(wl.load_obj()), "the lock is free in the end");
    sx_witness(0);
}

// copies of the reservation table taken without its lock
namespace {
wp::wp_meta* wm;
using elem = wp::wp_meta::wped_elem_type;
struct tabstate { elem e[2]; };
tabstate hist[8];
int nhist;      // completed states
int may;        // states that a change in progress may lead to
elem get_slot(wp::wp_meta::wped_type const& t, std::size_t i) { return t.at(i); }
void record_state() {
    auto const& c = const_cast<wp::wp_meta const*>(wm)->get_wped();
    hist[nhist].e[0] = get_slot(c, 0);
    hist[nhist].e[1] = get_slot(c, 1);
    nhist++;
}
void table_writer(void*) {
    may = nhist + 1;
    sx_assert(wm->register_wp(7, 1) == Status::OK, "register");
    { sx_nopreempt g; record_state(); may = nhist + 1; }
    if (sx_choose(2, "second") == 0) { sx_assert(wm->register_wp(8, 2) == Status::OK, "register"); }
    else { sx_assert(wm->remove_wp(1) == Status::OK, "remove"); }
    { sx_nopreempt g; record_state(); }
}
void table_reader(void*) {
    int from = 0;
    { sx_nopreempt g; from = nhist - 1; }
    auto t = wm->get_wped();
    sx_nopreempt g;
    // the copy is one of the states from the beginning of the call, or the one being produced
    bool ok = false;
    for (int i = from; i < nhist; i++) { ok = ok || (hist[i].e[0] == t.at(0) && hist[i].e[1] == t.at(1)); }
    if (!ok) {
        // a change whose effect is complete but whose call has not returned
        elem e0 = t.at(0), e1 = t.at(1);
        ok = may > nhist && ((nhist == 1 && e0 == elem(7, 1) && e1 == elem(0, 0)) ||
                             (nhist == 2 && ((e0 == elem(7, 1) && e1 == elem(8, 2)) || (e0 == elem(0, 0) && e1 == elem(0, 0)))));
    }
    sx_assert(ok, "a copy of the reservation table existed as a whole");
}
} // namespace
extern "C" void h_table_copy() {
    wm = new wp::wp_meta();
    nhist = 0;
    may = 0;
    record_state();
    sx_client(table_writer, nullptr);
    sx_client(table_reader, nullptr);
    sx_run_clients(SX_TIER ? 4 : 3);
    sx_assert(!wp::wp_lock::is_locked(wm->get_wp_lock().load_obj()), "the table is not left locked");
    delete wm;
    sx_witness(0);
}

// values are read as a whole
namespace {
version* ver;
const char* const A = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";
const char* const B = "bbbbbbbbbbbbbbbbbbbb";
void val_writer(void*) { ver->set_value(B); }
void val_reader(void*) {
    std::string o;
    ver->get_value(o);
    sx_assert(o == A || o == B, "a value is read as a whole");
}
void rec_writer(void*) { rec->set_value(B); }
void rec_reader(void*) {
    std::string o;
    rec->get_value(o);
    sx_assert(o == A || o == B, "a value is read as a whole");
}
} // namespace
extern "C" void h_value_copy() {
    ver = new version(A);
    sx_client(val_writer, nullptr);
    sx_client(val_reader, nullptr);
    sx_run_clients(SX_TIER ? 4 : 3);
    delete ver;
    sx_witness(0);
}
extern "C" void h_record_value_copy() {
    rec = new Record("k", A);
    sx_client(rec_writer, nullptr);
    sx_client(rec_reader, nullptr);
    sx_run_clients(SX_TIER ? 3 : 2);
    delete rec;
    sx_witness(0);
}
