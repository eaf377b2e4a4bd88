// P13: the state reported for a transaction only moves forward, to its true end.
#include "hist.h"
using namespace hist;
using kind_t = TxState::StateKind;

namespace {
Storage s0, s1;
Token a, o, r;
TxStateHandle h;
kind_t last;
bool have;
#ifdef PWAL
durability_marker_type dm, reached; // its position, and the durable one when it was first reported durable
#endif
void look() {
    if (!have) { return; }
    TxState s;
    sx_assert(check_tx_state(h, s) == Status::OK, "a handle is accepted until it is released");
    auto k = s.state_kind();
    sx_note("state", static_cast<std::uint64_t>(k));
    sx_assert(k != kind_t::UNKNOWN, "a known state");
    if (last == kind_t::ABORTED) { sx_assert(k == kind_t::ABORTED, "aborted is final"); }
    else { sx_assert(static_cast<int>(k) >= static_cast<int>(last), "states only move forward"); }
    if (k == kind_t::ABORTED) { sx_assert(static_cast<int>(last) < static_cast<int>(kind_t::WAITING_DURABLE), "a committed transaction is never reported aborted"); }
#ifdef PWAL
    if (k == kind_t::DURABLE && last != k) { reached = sx_log_durable(); }
#endif
    last = k;
}
void get() {
    sx_assert(acquire_tx_state_handle(a, h) == Status::OK, "a handle for a running transaction");
    have = true;
    TxStateHandle again{};
    sx_assert(acquire_tx_state_handle(a, again) == Status::WARN_ALREADY_EXISTS && again == h, "one handle for each transaction");
    look();
    sx_assert(last != kind_t::ABORTED && last < kind_t::WAITING_CC_COMMIT, "a running transaction is reported as such");
}
void ended(bool committed) {
    if (!have) { return; }
    look();
    if (!committed) { sx_assert(last == kind_t::ABORTED, "a transaction that did not commit is aborted"); return; }
#ifdef PWAL
    sx_assert(last == kind_t::WAITING_DURABLE || last == kind_t::DURABLE, "a committed transaction is reported as such");
    if (last == kind_t::DURABLE) { sx_assert(dm <= reached, "durable is not reported before the epoch is durable"); }
#else
    sx_assert(last == kind_t::DURABLE, "a committed transaction is reported as such");
#endif
}
} // namespace

extern "C" void h_state() {
    open_db();
    s0 = make_storage("s");
    s1 = make_storage("t");
    a = open_session();
    o = open_session();
    r = open_session();
    put1(r, s0, "k", "0");
    put1(r, s1, "k", "0");
    sx_tick();
    have = false;
    last = kind_t::UNKNOWN;
    TxState none;
    sx_assert(acquire_tx_state_handle(a, h) == Status::WARN_NOT_BEGIN, "no handle without a transaction");
    TxStateHandle wild = sx_u64(64, "handle");
    sx_assert(check_tx_state(wild, none) == Status::WARN_INVALID_HANDLE && release_tx_state_handle(wild) == Status::WARN_INVALID_HANDLE, "unknown handles are refused");
    // maybe another handle is around, of a transaction of another session
    TxStateHandle ho{};
    bool other_handle = sx_choose(2, "other handle") != 0;
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    bool wait = kind == tt::LONG && sx_choose(2, "wait") != 0;
    if (wait || other_handle) {
        begin_long(o, {s0});
        if (other_handle) { sx_assert(acquire_tx_state_handle(o, ho) == Status::OK, "a handle"); }
    }
    auto when = sx_choose(4, "acquire"); // before it is active, after, before the end, or released and acquired again
    switch (kind) {
        case tt::SHORT: begin_short(a); break;
        case tt::LONG: begin_long(a, {s1}, false); break;
        default: begin_ro(a, false); break;
    }
    if (when == 0 || when == 3) { get(); }
    if (when == 3) {
        sx_assert(release_tx_state_handle(h) == Status::OK, "release");
        sx_assert(check_tx_state(h, none) == Status::WARN_INVALID_HANDLE, "a released handle is refused");
        sx_assert(release_tx_state_handle(h) == Status::WARN_INVALID_HANDLE, "a released handle is refused");
        last = kind_t::UNKNOWN;
        get();
    }
    bool early = sx_choose(2, "early") != 0; // ends before it is active
    if (!early) { sx_tick(); look(); sx_tick(); look(); }
    if (when == 1) { get(); }
    std::string v;
    bool failed = false;
    if (!early || kind == tt::SHORT) {
        if (kind != tt::SHORT && have) { sx_assert(last == kind_t::STARTED, "active"); }
        Status rc = search_key(a, s0, "k", v);
        failed = rc == Status::ERR_CC; // reserved by the other one
        sx_assert(failed || rc == Status::OK, "reading");
        if (!failed) { look(); }
        if (!failed && kind != tt::READ_ONLY) { sx_assert(upsert(a, s1, "k", "1") == Status::OK, "writing"); look(); }
    }
    auto how = sx_choose(4, "how"); // abort, leave, commit, commit that loses
    if (!failed && how == 3 && !early && kind == tt::SHORT && !wait && !other_handle) { put1(r, s0, "k", "2"); }
    if (when == 2 && !failed) { get(); }
    bool committed = false;
    if (failed) { ended(false); }
    else if (how == 0) {
        sx_assert(abort(a) == Status::OK, "abort");
        ended(false);
    } else if (how == 1) {
        sx_assert(leave(a) == Status::OK, "leave");
        ended(false);
    } else {
        int calls = 0;
        Status rc{};
        bool d = commit(a, [&](Status s, reason_code, durability_marker_type m) { calls++; rc = s;
#ifdef PWAL
            dm = m;
#endif
        });
        if (d && rc == Status::WARN_PREMATURE) {
            look();
            if (have) { sx_assert(last == kind_t::WAITING_START, "not active yet"); }
            sx_assert(abort(a) == Status::OK, "abort");
            ended(false);
        } else {
            look();
            if (!d) {
                if (have) { sx_assert(last == kind_t::WAITING_CC_COMMIT, "waiting"); }
                sx_tick();
                look();
                if (how == 2) { sx_assert(abort(o) == Status::OK, "abort"); }
                else {
                    sx_assert(search_key(o, s1, "k", v) == Status::OK && upsert(o, s0, "k", "3") == Status::OK, "makes it lose");
                    sx_assert(commit(o) == Status::OK, "commit");
                }
                look();
                for (int i = 0; i < 4 && calls == 0; i++) { sx_tick(); look(); }
                sx_assert(calls == 1, "decided");
                sx_witness(3);
            }
            committed = rc == Status::OK;
            ended(committed);
        }
    }
    // it stays like that, whatever the session does next
    if (how != 1 && sx_choose(2, "next") != 0) {
        begin_short(a);
        TxStateHandle h2{};
        sx_assert(acquire_tx_state_handle(a, h2) == Status::OK && (!have || h2 != h), "a handle of its own");
        must_commit(a);
        sx_assert(release_tx_state_handle(h2) == Status::OK, "release");
    }
    for (int i = 0; i < 4; i++) { sx_tick(); ended(committed); }
    if (have) {
        if (committed) { sx_assert(last == kind_t::DURABLE, "becomes durable"); sx_witness(1); }
        else { sx_witness(2); }
        sx_assert(release_tx_state_handle(h) == Status::OK, "release");
        sx_assert(check_tx_state(h, none) == Status::WARN_INVALID_HANDLE, "a released handle is refused");
    }
    if (other_handle) { sx_assert(check_tx_state(ho, none) == Status::OK, "other handles are unaffected"); }
    no_log_errors();
    sx_witness(0);
}

// another thread reads the state while the session ends its transaction
namespace {
Status outcome;
bool over;
void c_end(void*) {
    std::string v;
    Status rc = Status::ERR_CC;
    switch (sx_choose(2, "how")) {
        case 0: sx_assert(abort(a) == Status::OK, "abort"); break;
        default: commit(a, [&rc](Status s, reason_code, durability_marker_type m) { rc = s;
#ifdef PWAL
            dm = m;
#endif
        }); break;
    }
    outcome = rc;
    over = true;
}
void c_watch(void*) {
    while (!over) { look(); sx_pause(); }
}
} // namespace
extern "C" void h_state_end() {
    open_db();
    s0 = make_storage("s");
    a = open_session();
    r = open_session();
    put1(r, s0, "k", "0");
    sx_tick();
    have = over = false;
    last = kind_t::UNKNOWN;
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    if (kind == tt::SHORT) { begin_short(a); } else if (kind == tt::LONG) { begin_long(a, {s0}); } else { begin_ro(a); }
    get();
    std::string v;
    sx_assert(search_key(a, s0, "k", v) == Status::OK, "reading");
    if (kind != tt::READ_ONLY) { sx_assert(upsert(a, s0, "k", "1") == Status::OK, "writing"); }
    sx_client(c_end, nullptr);
    sx_client(c_watch, nullptr);
    sx_run_clients(SX_TIER != 0 ? 3 : 2);
    ended(outcome == Status::OK);
    for (int i = 0; i < 4; i++) { sx_tick(); ended(outcome == Status::OK); }
    if (outcome == Status::OK) { sx_assert(last == kind_t::DURABLE, "becomes durable"); sx_witness(1); }
    sx_assert(release_tx_state_handle(h) == Status::OK, "release");
    no_log_errors();
    sx_witness(0);
}

// the handle of a waiting transaction is read and released while the resolver decides it
namespace {
int calls;
bool kept;
void c_look(void*) {
    for (int i = 0; i < 2; i++) { look(); }
    kept = sx_choose(2, "keep") != 0;
    if (!kept) {
        sx_assert(release_tx_state_handle(h) == Status::OK, "release");
        have = false;
        TxState none;
        sx_assert(check_tx_state(h, none) == Status::WARN_INVALID_HANDLE, "a released handle is refused");
    }
    while (calls == 0) { sx_pause(); }
}
} // namespace
extern "C" void h_state_race() {
    open_db();
    s0 = make_storage("s");
    s1 = make_storage("t");
    a = open_session();
    o = open_session();
    r = open_session();
    put1(r, s0, "k", "0");
    put1(r, s1, "k", "0");
    sx_tick();
    have = false;
    last = kind_t::UNKNOWN;
    calls = 0;
    begin_long(o, {s0});
    begin_long(a, {s1});
    get();
    std::string v;
    sx_assert(search_key(a, s0, "k", v) == Status::OK && upsert(a, s1, "k", "1") == Status::OK, "works");
    bool d = commit(a, [](Status s, reason_code, durability_marker_type m) { outcome = s;
#ifdef PWAL
        dm = m;
#endif
        calls++;
    });
    sx_assert(!d, "has to wait");
    if (sx_choose(2, "loses") != 0) {
        sx_assert(search_key(o, s1, "k", v) == Status::OK && upsert(o, s0, "k", "3") == Status::OK, "makes it lose");
        sx_assert(commit(o) == Status::OK, "commit");
    } else { sx_assert(abort(o) == Status::OK, "abort"); }
    sx_awake = 1U << sx_choose(sx_bg_count(), "awake");
    sx_client(c_look, nullptr);
    sx_run_clients(SX_TIER != 0 ? 3 : 2, true, 0);
    if (kept) { ended(outcome == Status::OK); sx_witness(1); }
    begin_short(a);
    must_commit(a);
    for (int i = 0; i < 3; i++) { sx_tick(); ended(outcome == Status::OK); }
    if (kept) { sx_assert(release_tx_state_handle(h) == Status::OK, "release"); }
    no_log_errors();
    sx_witness(0);
}
