// P23: the reservation table is an exact multiset of the registered and not yet removed entries.
#include "concurrency_control/include/wp_meta.h"
#include "sx.h"
using namespace shirakami;
using wp::wp_meta;

namespace {
constexpr std::size_t CAP = KVS_MAX_PARALLEL_THREADS;
struct held_t {
    bool on;
    std::uint64_t ep, id;
    bool range;
    char l, r;
};
held_t held[CAP];
std::size_t nheld;

void check(wp_meta& m) {
    auto t = m.get_wped();
    std::size_t used = 0;
    for (auto&& e : t) { used += (e.first != 0) | (e.second != 0) ? 1 : 0; }
    sx_assert(used == nheld, "the table holds as many entries as are registered");
    std::uint64_t minep = 0, minid = 0, minid_ep = 0;
    bool any = false;
    for (std::size_t i = 0; i < CAP; i++) {
        if (!held[i].on) { continue; }
        std::size_t n = 0;
        for (auto&& e : t) { n += static_cast<std::size_t>((e.first == held[i].ep) & (e.second == held[i].id)); }
        sx_assert(n == 1, "each registered entry is in the table once");
        minep = !any || held[i].ep < minep ? held[i].ep : minep;
        minid_ep = !any || held[i].id < minid ? held[i].ep : minid_ep;
        minid = !any || held[i].id < minid ? held[i].id : minid;
        any = true;
    }
    sx_assert(wp_meta::empty(t) == (nheld == 0), "emptiness is reported exactly");
    sx_assert(wp_meta::find_min_ep(t) == minep, "the lowest epoch is found");
    sx_assert(wp_meta::find_min_id(t) == minid, "the lowest identifier is found");
    auto p = wp_meta::find_min_ep_id(t);
    sx_assert((p.first == minid_ep) & (p.second == minid), "the entry with the lowest identifier is found");
    for (std::size_t i = 0; i < CAP; i++) {
        if (!held[i].on) { continue; }
        std::string l, r;
        bool f = m.read_write_range(held[i].id, l, r);
        sx_assert(f == held[i].range, "a key range is known exactly when it was recorded");
        if (f) { sx_assert(l.size() == 1 && r.size() == 1 && l[0] == held[i].l && r[0] == held[i].r, "the recorded key range is returned"); }
    }
}
bool is_held(std::uint64_t id) {
    bool x = false;
    for (std::size_t i = 0; i < CAP; i++) { x |= held[i].on & (held[i].id == id); }
    return x;
}
} // namespace

extern "C" void h_table_ops() {
    wp_meta m;
    nheld = 0;
    for (auto& h : held) { h.on = false; }
    std::size_t results = 0;
    check(m);
    for (int i = 0; i < (SX_TIER ? 5 : 4); i++) {
        std::uint64_t op = sx_choose(4, "op");
        std::uint64_t id = sx_u64(64, "id");
        sx_assume(id != 0);
        if (op == 0) {
            std::uint64_t ep = sx_u64(48, "epoch");
            sx_assume(ep != 0);
            sx_assume(!is_held(id));
            auto rc = m.register_wp(ep, id);
            if (nheld == CAP) { sx_assert(rc != Status::OK, "registering beyond the capacity is refused"); sx_witness(1); }
            else {
                sx_assert(rc == Status::OK, "registering within the capacity succeeds");
                for (auto& h : held) { if (!h.on) { h = held_t{true, ep, id, false, 0, 0}; break; } }
                nheld++;
            }
        } else {
            std::size_t at = CAP;
            for (std::size_t k = 0; k < CAP; k++) { if (held[k].on && held[k].id == id) { at = k; break; } }
            if (op == 1) {
                auto rc = m.remove_wp(id);
                sx_assert((rc == Status::OK) == (at != CAP), "removing works exactly for registered entries");
                if (at != CAP) {
                    if (held[at].range) { m.remove_write_range(id); }
                    held[at].on = false;
                    nheld--;
                }
            } else if (op == 2) {
                if (at == CAP || held[at].range) { sx_end(); }
                char l{}, r{};
                sx_bytes(&l, 1, "left");
                sx_bytes(&r, 1, "right");
                m.push_write_range(id, {&l, 1}, {&r, 1});
                held[at].range = true;
                held[at].l = l;
                held[at].r = r;
            } else {
                bool com = sx_u64(1, "committed") != 0;
                std::uint64_t ep = sx_u64(48, "result_epoch");
                auto rc = m.register_wp_result_and_remove_wp({ep, id, com, {true, "l", "r"}});
                sx_assert((rc == Status::OK) == (at != CAP), "finishing works exactly for registered entries");
                results++;
                auto& rs = m.get_wp_result_set();
                sx_assert(rs.size() == results, "every outcome is recorded once");
                auto const& e = rs.back();
                sx_assert((wp_meta::wp_result_elem_extract_epoch(e) == ep) & (wp_meta::wp_result_elem_extract_id(e) == id) &
                                  (wp_meta::wp_result_elem_extract_was_committed(e) == com), "the outcome is recorded as given");
                auto const& w = wp_meta::wp_result_elem_extract_write_result(e);
                sx_assert(std::get<0>(w) && std::get<1>(w) == "l" && std::get<2>(w) == "r", "the written range is recorded as given");
                std::string l, r;
                sx_assert(!m.read_write_range(id, l, r), "the key range of a finished entry is forgotten");
                if (at != CAP) { held[at].on = false; nheld--; }
            }
        }
        check(m);
    }
    sx_witness(0);
}

// queries over any table
extern "C" void h_table_queries() {
    wp_meta::wped_type t{};
    std::uint64_t minep = 0, minid = 0, minid_ep = 0;
    bool any = false;
    for (std::size_t i = 0; i < CAP; i++) {
        std::uint64_t ep = sx_u64(48, "epoch"), id = sx_u64(64, "id");
        sx_assume((ep == 0) == (id == 0));
        t.at(i) = {ep, id};
        for (std::size_t k = 0; k < i; k++) { sx_assume((t.at(k).second != id) | (id == 0)); }
        bool u = ep != 0;
        minep = u & (!any | (ep < minep)) ? ep : minep;
        minid_ep = u & (!any | (id < minid)) ? ep : minid_ep;
        minid = u & (!any | (id < minid)) ? id : minid;
        any |= u;
    }
    sx_assert(wp_meta::empty(t) == !any, "emptiness is reported exactly");
    sx_assert(wp_meta::find_min_ep(t) == minep, "the lowest epoch is found");
    sx_assert(wp_meta::find_min_id(t) == minid, "the lowest identifier is found");
    auto p = wp_meta::find_min_ep_id(t);
    sx_assert((p.first == minid_ep) & (p.second == minid), "the entry with the lowest identifier is found");
    sx_witness(0);
}

namespace {
wp_meta* wm;
void user(void* a) {
    auto n = reinterpret_cast<std::uintptr_t>(a);
    sx_assert(wm->register_wp(10 + n, 20 + n) == Status::OK, "concurrent registering succeeds");
    if (n == 1) { sx_assert(wm->remove_wp(20 + n) == Status::OK, "concurrent removing succeeds"); }
    if (n == 2) { sx_assert(wm->register_wp_result_and_remove_wp({10 + n, 20 + n, true, {false, "", ""}}) == Status::OK, "concurrent finishing succeeds"); }
}
// what is seen meanwhile was registered
void watcher(void*) {
    auto t = wm->get_wped();
    std::size_t n[3]{};
    for (auto&& e : t) {
        if (e.first == 0 && e.second == 0) { continue; }
        sx_assert(e.first >= 10 && e.first <= 12 && e.second == e.first + 10, "every entry seen is a registered one");
        sx_assert(++n[e.first - 10] == 1, "each registered entry is seen once");
    }
}
} // namespace
extern "C" void h_table_concurrent() {
    wm = new wp_meta();
    if (sx_choose(2, "watch") != 0) {
        sx_client(watcher, nullptr);
        for (std::uintptr_t i = 1; i < 3; i++) { sx_client(user, reinterpret_cast<void*>(i)); }
        sx_run_clients(SX_TIER ? 4 : 3);
        delete wm;
        sx_witness(1);
        return;
    }
    for (std::uintptr_t i = 0; i < 3; i++) { sx_client(user, reinterpret_cast<void*>(i)); }
    sx_run_clients(SX_TIER ? 3 : 2);
    nheld = 1;
    for (auto& h : held) { h.on = false; }
    held[0] = held_t{true, 10, 20, false, 0, 0};
    check(*wm);
    sx_assert(wm->get_wp_result_set().size() == 1, "the finished one left its outcome");
    // the freed places are usable again
    for (std::size_t i = 1; i < CAP; i++) {
        sx_assert(wm->register_wp(30 + i, 40 + i) == Status::OK, "freed places are reusable");
        held[i] = held_t{true, 30 + i, 40 + i, false, 0, 0};
        nheld++;
    }
    check(*wm);
    delete wm;
    sx_witness(0);
}
