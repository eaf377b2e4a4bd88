// P09: write reservations bind the long transaction and keep short ones out.
#include "common.h"
using namespace hx;

namespace {
Storage s[2];
Token l, l2, w;
constexpr std::uint64_t ONE = 1;

Status do_op(Token t, int op, Storage st, const char* k) {
    std::string v;
    switch (op) {
        case 0: return insert(t, st, k, "9");
        case 1: return update(t, st, k, "9");
        case 2: return upsert(t, st, k, "9");
        case 3: return delete_record(t, st, k);
        case 4: return search_key(t, st, k, v);
        case 5: return exist_key(t, st, k);
        default: {
            ScanHandle h{};
            Status rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
            if (rc != Status::OK) { return rc; }
            rc = read_key_from_scan(t, h, v);
            if (rc == Status::OK || rc == Status::WARN_NOT_FOUND) { close_scan(t, h); }
            return rc;
        }
    }
}
// contents: "a" in both storages
void setup() {
    open_db();
    s[0] = make_storage("s");
    s[1] = make_storage("t");
    l = open_session();
    l2 = open_session();
    w = open_session();
    for (auto st : s) { put1(w, st, "a", "0"); }
}
void expect_contents(Storage st, const char* k, bool there, const char* v) {
    begin_short(w);
    std::string b;
    Status rc = search_key(w, st, k, b);
    sx_assert(rc == (there ? Status::OK : Status::WARN_NOT_FOUND), "record there or not");
    if (there) { sx_assert(b == v, "value kept"); }
    must_commit(w);
}
// a storage without reservations can be used by short transactions in every way
void unhindered(Storage st) {
    std::string v;
    begin_short(w);
    sx_assert(upsert(w, st, "u", "1") == Status::OK, "upsert is not hindered");
    must_commit(w, "commit is not hindered");
    begin_short(w);
    sx_assert(search_key(w, st, "u", v) == Status::OK && v == "1", "read is not hindered");
    sx_assert(do_op(w, 6, st, "") == Status::OK, "scan is not hindered");
    sx_assert(update(w, st, "u", "2") == Status::OK, "update is not hindered");
    must_commit(w, "commit is not hindered");
    begin_short(w);
    sx_assert(delete_record(w, st, "u") == Status::OK, "delete is not hindered");
    sx_assert(insert(w, st, "z", "1") == Status::OK, "insert is not hindered");
    must_commit(w, "commit is not hindered");
}
std::vector<Storage> pick(unsigned m) {
    std::vector<Storage> v;
    for (unsigned i = 0; i < 2; i++) { if ((m >> i & 1U) != 0) { v.push_back(s[i]); } }
    return v;
}
} // namespace

// a long transaction writes exactly where it reserved
extern "C" void h_write_reserved() {
    setup();
    auto m = static_cast<unsigned>(sx_choose(4, "reserved"));
    bool twice = sx_choose(2, "named twice") != 0;
    auto wp = pick(m);
    if (twice) { for (auto st : pick(m)) { wp.push_back(st); } }
    sx_assert(tx_begin({l, tt::LONG, wp}) == Status::OK, "begin");
    int op = static_cast<int>(sx_choose(4, "operation"));
    int at = static_cast<int>(sx_choose(2, "storage"));
    const char* k = sx_choose(2, "key") != 0 ? "a" : "n";
    if (sx_choose(2, "too early") != 0) {
        sx_assert(do_op(l, op, s[at], k) == Status::WARN_PREMATURE, "a write before the transaction is active is refused");
        sx_witness(1);
    }
    sx_tick();
    sx_tick();
    Status rc = do_op(l, op, s[at], k);
    bool there = k[0] == 'a', wrote = false;
    if ((m >> static_cast<unsigned>(at) & 1U) == 0) {
        sx_assert(rc == Status::WARN_WRITE_WITHOUT_WP, "a write elsewhere is refused");
        sx_witness(0);
    } else {
        Status want = op == 0 ? (there ? Status::WARN_ALREADY_EXISTS : Status::OK) : op == 2 ? Status::OK : there ? Status::OK : Status::WARN_NOT_FOUND;
        sx_assert(rc == want, "a write to a reserved storage is accepted");
        wrote = rc == Status::OK;
    }
    must_commit(l);
    bool now = there;
    if (wrote) { now = op != 3; }
    expect_contents(s[at], k, now, wrote ? "9" : "0");
    expect_contents(s[1 - at], "a", true, "0");
    expect_contents(s[1 - at], "n", false, "");
    unhindered(s[0]);
    no_log_errors();
}

// a short transaction conflicting with a reservation in force does not commit; it is free as soon as the reservations ended
extern "C" void h_keep_out() {
    setup();
    int op = static_cast<int>(sx_choose(7, "operation"));
    const char* k = sx_choose(2, "key") != 0 ? "a" : "n";
    int order = static_cast<int>(sx_choose(4, "order"));
    // 0: long begins and becomes active first; 1: short begins before; 2: short works before; 3: short works between begin and activation
    bool both = sx_choose(2, "reserves both") != 0;
    int other = static_cast<int>(sx_choose(2, "short works elsewhere"));
    Storage at = s[other];
    bool hit = other == 0 || both;
    bool refused = false;
    Status rc{};
    auto work = [&] {
        rc = do_op(w, op, at, k);
        if (rc == Status::ERR_CC) { refused = true; }
    };
    if (order == 1 || order == 2) { begin_short(w); }
    if (order == 2) { work(); }
    bool second = sx_choose(2, "a second long transaction") != 0;
    auto wp = both ? pick(3) : pick(1);
    sx_assert(tx_begin({l, tt::LONG, wp}) == Status::OK, "begin");
    if (second) { sx_assert(tx_begin({l2, tt::LONG, pick(1)}) == Status::OK, "begin"); }
    if (order == 3) { begin_short(w); work(); }
    // active from the next epoch on
    for (auto n = sx_choose(2, "epochs"); n < 2; n++) { sx_tick(); }
    // the long transactions may end before the short one commits
    int ended = static_cast<int>(sx_choose(second ? 4 : 3, "ended before")); // 0 none, 1 first aborted, 2 first committed, 3 both aborted
    if (ended == 1 || ended == 3) { sx_assert(abort(l) == Status::OK, "abort"); }
    if (ended == 2) { must_commit(l); }
    if (ended == 3) { sx_assert(abort(l2) == Status::OK, "abort"); }
    if (order == 0) { begin_short(w); }
    if (order <= 1) { work(); }
    bool in_force = (ended == 0 && hit) || (second && ended != 3 && other == 0);
    if (in_force && order <= 1 && op != 2) {
        bool answer = rc == Status::ERR_CC || rc == Status::WARN_CONFLICT_ON_WRITE_PRESERVE;
        sx_assert(answer, "an operation on a reserved storage is refused");
    }
    // a refused write is not part of the transaction; anything else is
    bool part_of = rc != Status::WARN_CONFLICT_ON_WRITE_PRESERVE && rc != Status::WARN_ALREADY_EXISTS;
    Status c = refused ? Status::ERR_CC : commit(w);
    // a blind upsert reads nothing and does not conflict
    if (in_force && part_of && op != 2) {
        bool blind = op == 1 || op == 3;
        // an update or delete of a missing record left nothing
        if (!(blind && rc == Status::WARN_NOT_FOUND)) {
            sx_assert(c == Status::ERR_CC, "a short transaction conflicting with a reservation in force does not commit");
            sx_witness(0);
        }
    }
    if (!hit) { sx_assert(c == Status::OK, "work elsewhere is not hindered"); sx_witness(1); }
    if (order == 0 && !in_force) { sx_assert(c == Status::OK, "a short transaction begun after the end of the reservations is not hindered"); sx_witness(2); }
    // end the rest
    if (ended == 0) { if (sx_choose(2, "end of first") != 0) { must_commit(l); } else { sx_assert(abort(l) == Status::OK, "abort"); } }
    if (second && ended != 3) { if (sx_choose(2, "end of second") != 0) { must_commit(l2); } else { sx_assert(abort(l2) == Status::OK, "abort"); } }
    unhindered(s[0]);
    unhindered(s[1]);
    no_log_errors();
}

// however the reserving transaction ends, nothing of the reservation stays; a begin that is refused reserves nothing
extern "C" void h_release() {
    setup();
    int how = static_cast<int>(sx_choose(8, "end"));
    sx_assert(tx_begin({l, tt::LONG, pick(3), {std::set<Storage>{s[0]}, {}}}) == Status::OK, "begin");
    std::string v;
    if (how == 0) { sx_assert(commit(l) == Status::WARN_PREMATURE, "a commit before the transaction is active is refused"); sx_tick(); sx_tick(); must_commit(l); }
    if (how == 1) { sx_assert(abort(l) == Status::OK, "abort of an early end"); }
    if (how >= 2) { sx_tick(); sx_tick(); }
    if (how == 2) { upsert(l, s[0], "x", "1"); must_commit(l); }
    if (how == 3) { upsert(l, s[0], "x", "1"); sx_assert(abort(l) == Status::OK, "abort"); }
    if (how == 4) { sx_assert(search_key(l, s[1], "a", v) == Status::ERR_READ_AREA_VIOLATION, "reading outside of the read area ends it"); }
    if (how == 5) { // has to wait for an older one
        sx_assert(commit(l) == Status::OK, "commit");
        sx_assert(tx_begin({l2, tt::LONG, pick(1)}) == Status::OK, "begin");
        sx_assert(tx_begin({l, tt::LONG, pick(3)}) == Status::OK, "begin");
        sx_tick();
        sx_tick();
        search_key(l, s[0], "a", v);
        upsert(l, s[1], "a", "2");
        bool called = false;
        Status got{};
        commit(l, [&called, &got](Status rc, reason_code, durability_marker_type) { called = true; got = rc; });
        if (sx_choose(2, "older one ends") != 0) { must_commit(l2); } else { sx_assert(abort(l2) == Status::OK, "abort"); }
        sx_tick();
        sx_tick();
        sx_assert(called, "decided when the older one ended");
    }
    if (how == 6) { // refused begin: unknown storage
        must_commit(l);
        sx_assert(tx_begin({l, tt::LONG, {s[0], 4242}}) == Status::WARN_INVALID_ARGS, "an unknown storage is refused");
    }
    if (how == 7) { // its session is left
        sx_assert(abort(l) == Status::OK, "abort");
        sx_assert(leave(l) == Status::OK, "leave");
        l = open_session();
        sx_assert(tx_begin({l, tt::SHORT}) == Status::OK, "begin");
        sx_assert(abort(l) == Status::OK, "abort");
    }
    if (sx_choose(2, "epochs pass") != 0) { sx_tick(); sx_tick(); }
    unhindered(s[0]);
    unhindered(s[1]);
    no_log_errors();
    sx_witness(static_cast<unsigned>(how));
}
