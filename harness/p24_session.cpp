// P24: sessions are exclusive, limited and start clean.
#include "common.h"
#include "shirakami/api_sequence.h"
#include "shirakami/result_info.h"
using namespace hx;

namespace {
constexpr int MAX = KVS_MAX_PARALLEL_THREADS;
} // namespace

// any sequence of entering and leaving
extern "C" void h_session() {
    open_db();
    Storage s = make_storage();
    Token held[MAX] = {};
    Token ever[8] = {};
    int nheld = 0;
    int never = 0;
    const int steps = SX_TIER != 0 ? 7 : 6;
    for (int n = 0; n < steps; n++) {
        switch (sx_choose(4, "step")) {
            case 0: case 1: {
                Token t{};
                Status rc = enter(t);
                if (nheld == MAX) {
                    sx_assert(rc == Status::ERR_SESSION_LIMIT, "one session too many is refused");
                    sx_witness(0);
                    break;
                }
                sx_assert(rc == Status::OK, "a session is given while there is one left");
                for (int i = 0; i < nheld; i++) { sx_assert(held[i] != t, "sessions in use are distinct"); }
                held[nheld++] = t;
                bool known = false;
                for (int i = 0; i < never; i++) { known = known || ever[i] == t; }
                if (!known) { ever[never++] = t; } else { sx_witness(1); }
                sx_assert(never <= MAX, "a session given back is used again");
                // it can be used
                put1(t, s, "k", "v");
                break;
            }
            case 2: {
                if (nheld == 0) { sx_end(); }
                int i = static_cast<int>(sx_choose(static_cast<unsigned>(nheld), "which"));
                Token t = held[i];
                held[i] = held[--nheld];
                bool running = sx_choose(2, "running") != 0;
                if (running) { begin_short(t); sx_assert(upsert(t, s, "k", "w") == Status::OK, "upsert"); }
                sx_assert(leave(t) == Status::OK, "leaving a session in use");
                break;
            }
            default: {
                // any session not in use, and anything that is none
                auto v = sx_u64(64, "token");
                Token t = reinterpret_cast<Token>(v);
                bool in_use = false;
                for (int i = 0; i < nheld; i++) { in_use = in_use || held[i] == t; }
                sx_assume(!in_use);
                bool known = false;
                for (int i = 0; i < never; i++) { known = known || ever[i] == t; }
                Status rc = leave(t);
                if (known) {
                    sx_assert(rc == Status::WARN_NOT_IN_A_SESSION, "leaving twice is refused");
                    sx_witness(2);
                } else {
                    // a session that was never used is one as well
                    sx_assert(rc == Status::WARN_INVALID_ARGS || rc == Status::WARN_NOT_IN_A_SESSION, "leaving what is no session is refused");
                }
                break;
            }
        }
    }
    for (int i = 0; i < nheld; i++) { sx_assert(leave(held[i]) == Status::OK, "leaving a session in use"); }
    Token t = open_session();
    std::string v;
    begin_short(t);
    Status rc = search_key(t, s, "k", v);
    sx_assert(never == 0 ? rc == Status::WARN_NOT_FOUND : rc == Status::OK && v == "v", "a transaction running at leave is undone");
    must_commit(t);
    sx_assert(leave(t) == Status::OK, "leaving a session in use");
    no_log_errors();
    sx_witness(3);
}

// whatever its last user did with it, a session given again behaves as a fresh one
extern "C" void h_session_clean() {
    open_db();
    Storage s = make_storage("s");
    Storage u = make_storage("u");
    Token w = open_session();
    put1(w, s, "a", "0");
    put1(w, s, "b", "0");
    put1(w, u, "a", "0");
    SequenceId q{};
    sx_assert(create_sequence(&q) == Status::OK, "a sequence");
    for (int i = 0; i < 3; i++) { sx_tick(); }
    Token t = open_session();
    // the first user
    auto kind = sx_choose(4, "first kind");
    bool is_long = kind == 1 || kind == 2;
    if (kind == 0) { begin_short(t); }
    else if (kind == 1) { begin_long(t, {s}); }
    else if (kind == 2) { sx_assert(tx_begin({t, tt::LONG, {s}, {{s}, {u}}}) == Status::OK, "begin"); sx_tick(); sx_tick(); }
    else { begin_ro(t); }
    const char* exp_a = "0";
    const char* exp_n = nullptr;
    bool wrote_seq = false;
    std::string v;
    ScanHandle old{};
    bool ended = false;
    const int nops = SX_TIER != 0 ? 2 : 1;
    for (int i = 0; i < nops && !ended; i++) {
        auto op = sx_choose(kind == 3 ? 2 : 8, "first op");
        switch (op) {
            case 0: sx_assert(search_key(t, s, "a", v) == Status::OK || i > 0, "read"); break;
            case 1: {
                auto rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, old);
                sx_assert(rc == Status::OK, "scan");
                break;
            }
            case 2: sx_assert(upsert(t, s, "a", "1") == Status::OK, "upsert"); exp_a = "1"; break;
            case 3: {
                auto rc = insert(t, s, "n", "1");
                sx_assert(rc == Status::OK || i > 0, "insert");
                exp_n = "1";
                break;
            }
            case 4: {
                auto rc = delete_record(t, s, "a");
                sx_assert(rc == Status::OK || i > 0, "delete");
                exp_a = nullptr;
                break;
            }
            case 5: sx_assert(update_sequence(t, q, 5, 50) == Status::OK, "sequence"); wrote_seq = true; break;
            case 6: {
                // refused
                auto rc = is_long ? upsert(t, u, "a", "1") : insert(t, s, "b", "1");
                sx_assert(rc == Status::WARN_WRITE_WITHOUT_WP || rc == Status::WARN_ALREADY_EXISTS, "refused");
                break;
            }
            default: {
                // ended by a violation or a conflict
                if (kind == 2) {
                    sx_assert(search_key(t, u, "a", v) == Status::ERR_READ_AREA_VIOLATION, "violation");
                    ended = true;
                } else if (kind == 0) {
                    sx_assert(search_key(t, s, "b", v) == Status::OK, "read");
                    put1(w, s, "b", "0");
                    sx_assert(upsert(t, s, "n", "1") == Status::OK, "upsert");
                    sx_assert(commit(t) == Status::ERR_CC, "refused");
                    ended = true;
                }
                break;
            }
        }
    }
    int called = 0;
    bool commits = false;
    if (!ended) {
        switch (sx_choose(4, "first end")) {
            case 0: must_commit(t); commits = true; break;
            case 1: {
                bool d = commit(t, [&called](Status rc, reason_code, durability_marker_type) { sx_assert(rc == Status::OK, "commit"); called++; });
                for (int i = 0; i < 3 && !d && called == 0; i++) { sx_tick(); }
                sx_assert(called == 1, "commit is told");
                commits = true;
                break;
            }
            case 2: sx_assert(abort(t) == Status::OK, "abort"); break;
            default: break;
        }
    }
    bool again = sx_choose(2, "leave") != 0;
    if (!commits && !ended) { again = true; } // still running or aborted
    if (again) {
        sx_assert(leave(t) == Status::OK, "leave");
        Token t2 = open_session();
        if (t2 == t) { sx_witness(0); }
        t = t2;
    }
    if (sx_choose(2, "later") != 0) { for (int i = 0; i < 3; i++) { sx_tick(); } }
    if (!commits) { exp_a = "0"; exp_n = nullptr; wrote_seq = false; }
    // the second one
    auto kind2 = sx_choose(3, "second kind");
    if (kind2 == 0) { begin_short(t); }
    else if (kind2 == 1) { begin_long(t, {u}, false); }
    else { begin_ro(t, false); }
    auto ri = transaction_result_info(t);
    sx_assert(ri == nullptr || (ri->get_reason_code() == reason_code::UNKNOWN && ri->get_key().empty() && ri->get_storage_name().empty()), "no reason is left over");
    for (int i = 0; i < 2 && kind2 != 0; i++) { sx_tick(); }
    auto rc = search_key(t, s, "a", v);
    sx_assert(exp_a == nullptr ? rc == Status::WARN_NOT_FOUND : rc == Status::OK && v == exp_a, "it reads what is committed");
    rc = search_key(t, s, "n", v);
    sx_assert(exp_n == nullptr ? rc == Status::WARN_NOT_FOUND : rc == Status::OK && v == exp_n, "it reads what is committed");
    rc = search_key(t, u, "a", v);
    sx_assert(rc == Status::OK && v == "0", "no read area is left over");
    ScanHandle h{};
    rc = open_scan(t, s, "a", scan_endpoint::INCLUSIVE, "b", scan_endpoint::INCLUSIVE, h);
    sx_assert(rc == Status::OK, "scan");
    std::string k;
    sx_assert(read_key_from_scan(t, h, k) == Status::OK && k == (exp_a == nullptr ? "b" : "a"), "scan");
    sx_assert(close_scan(t, h) == Status::OK, "close");
    if (kind2 == 1) { sx_assert(upsert(t, s, "a", "2") == Status::WARN_WRITE_WITHOUT_WP, "no reservation is left over"); }
    if (kind2 != 2) { sx_assert(upsert(t, u, "z", "2") == Status::OK, "write"); }
    if (kind2 == 0) { sx_assert(upsert(w, s, "y", "2") == Status::WARN_NOT_BEGIN, "another session is not touched"); }
    must_commit(t, "nothing left over refuses the commit");
    sx_assert(called <= 1, "an old callback is not called again");
    for (int i = 0; i < 3; i++) { sx_tick(); }
    // and what it left
    begin_short(w);
    rc = search_key(w, s, "a", v);
    sx_assert(exp_a == nullptr ? rc == Status::WARN_NOT_FOUND : rc == Status::OK && v == exp_a, "old writes do not come with the new commit");
    rc = search_key(w, s, "n", v);
    sx_assert(exp_n == nullptr ? rc == Status::WARN_NOT_FOUND : rc == Status::OK && v == exp_n, "old writes do not come with the new commit");
    rc = search_key(w, u, "z", v);
    sx_assert(kind2 == 2 ? rc == Status::WARN_NOT_FOUND : rc == Status::OK, "new writes are there");
    must_commit(w, "nobody is hindered by a reservation left over");
    SequenceVersion sv{};
    SequenceValue sval{};
    sx_assert(read_sequence(q, &sv, &sval) == Status::OK, "sequence");
    sx_assert(wrote_seq ? sv == 5 && sval == 50 : sval == 0, "old sequence updates do not come with the new commit");
    no_log_errors();
    if (commits) { sx_witness(1); }
    if (ended) { sx_witness(2); }
    sx_witness(3);
}

namespace {
Storage rs;
Token owner[3];
int busy; // sessions in use or about to be
bool limit_seen;
void user(void* p) {
    auto i = static_cast<int>(reinterpret_cast<std::uintptr_t>(p));
    for (int n = 0; n < (SX_TIER != 0 && i == 0 ? 2 : 1); n++) {
        { sx_nopreempt np; busy++; }
        Token t{};
        Status rc = enter(t);
        if (rc != Status::OK) {
            sx_nopreempt np;
            sx_assert(rc == Status::ERR_SESSION_LIMIT && busy > MAX, "a session is refused only when they may all be in use");
            limit_seen = true;
            busy--;
            continue;
        }
        {
            sx_nopreempt np;
            for (auto* o : owner) { sx_assert(o != t, "a session has one user at a time"); }
            owner[i] = t;
        }
        sx_assert(tx_begin({t, tt::SHORT}) == Status::OK, "a session starts without a transaction");
        if (i == 0) { sx_assert(upsert(t, rs, "k", "v") == Status::OK, "upsert"); }
        sx_assert(commit(t) == Status::OK, "commit");
        { sx_nopreempt np; owner[i] = nullptr; }
        sx_assert(leave(t) == Status::OK, "leave");
        { sx_nopreempt np; busy--; }
    }
}
} // namespace

// three users of two sessions
extern "C" void h_session_race() {
    open_db();
    rs = make_storage();
    for (std::uintptr_t i = 0; i < 3; i++) { sx_client(user, reinterpret_cast<void*>(i)); }
    sx_run_clients(SX_TIER != 0 ? 3 : 2);
    Token t[MAX];
    for (auto& x : t) { x = open_session(); }
    for (auto& x : t) { sx_assert(leave(x) == Status::OK, "leave"); }
    no_log_errors();
    if (limit_seen) { sx_witness(1); }
    sx_witness(0);
}
