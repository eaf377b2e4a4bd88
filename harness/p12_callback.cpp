// P12: the commit callback fires exactly once and tells what really happened.
#include "hist.h"
#include "shirakami/result_info.h"
using namespace hist;


namespace {
struct told {
    int calls{0};
    Status rc{};
    reason_code why{};
    durability_marker_type dm{};
};
Storage s0, s1;
Token a, b, r;
told* watch;
commit_callback_type listen(told& c, Token t) {
    return [&c, t](Status rc, reason_code why, durability_marker_type dm) {
        c.calls++;
        c.rc = rc;
        c.why = why;
        c.dm = dm;
        if (static_cast<int>(rc) > 0) {
            sx_assert(why != reason_code::UNKNOWN, "a refused commit tells its reason");
            sx_assert(transaction_result_info(t)->get_reason_code() == why, "the reason is the recorded one");
            bool kvs = why == reason_code::KVS_INSERT || why == reason_code::KVS_UPDATE || why == reason_code::KVS_DELETE;
            sx_assert(kvs == (rc == Status::ERR_KVS), "status and reason agree");
        }
    };
}
void start() {
    open_db();
    s0 = make_storage("s");
    s1 = make_storage("t");
    a = open_session();
    b = open_session();
    r = open_session();
    put1(r, s0, "k", "0");
    put1(r, s1, "k", "0");
    sx_tick();
}
char now_at(Storage s) {
    std::string v;
    begin_short(r);
    Status rc = search_key(r, s, "k", v);
    sx_assert(rc == Status::OK && v.size() == 1, "reading");
    must_commit(r);
    return v[0];
}
} // namespace

// every kind of transaction, every way to end at once
extern "C" void h_callback() {
    start();
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    auto how = sx_choose(9, "how");
    told c;
    if (how == 0) {
        // never begun
        sx_assert(commit(a, listen(c, a)), "decided");
        sx_assert(c.calls == 1 && c.rc == Status::WARN_NOT_BEGIN, "a request without a transaction is told so");
        sx_witness(0);
        return;
    }
    if (kind == tt::SHORT) { begin_short(a); }
    else if (kind == tt::LONG) { begin_long(a, {s0}, false); }
    else { begin_ro(a, false); }
    if (how == 1) {
        // at once: a long transaction is not active yet
        bool d = commit(a, listen(c, a));
        sx_assert(d && c.calls == 1, "told at once");
        sx_assert(c.rc == (kind == tt::LONG ? Status::WARN_PREMATURE : Status::OK), "a long transaction cannot commit before it is active");
        if (kind != tt::LONG) { sx_witness(0); return; }
        c = {};
    }
    if (kind != tt::SHORT) { sx_tick(); sx_tick(); }
    std::string v;
    bool writes = kind != tt::READ_ONLY && how != 2;
    bool reads = how != 3 && how < 6;
    if (reads) { sx_assert(search_key(a, s1, "k", v) == Status::OK, "reading"); }
    if (writes) { sx_assert(upsert(a, s0, "k", "1") == Status::OK, "writing"); }
    if (how >= 6) {
        // somebody inserts or deletes what is to be inserted, changed or deleted
        if (kind != tt::SHORT) { sx_end(); }
        const char* k = how == 6 ? "n" : "k";
        Status rc = how == 6 ? insert(a, s1, k, "1") : how == 7 ? update(a, s1, k, "1") : delete_record(a, s1, k);
        sx_assert(rc == Status::OK, "writing");
        begin_short(b);
        rc = how == 6 ? upsert(b, s1, k, "2") : delete_record(b, s1, k);
        sx_assert(rc == Status::OK, "writing");
        told o;
        sx_assert(commit(b, listen(o, b)) && o.calls == 1, "told at once");
        if (o.rc == Status::OK) { sx_witness(3); }
    } else if (how >= 4) {
        // somebody changes what was read
        begin_short(b);
        sx_assert(upsert(b, s1, "k", "2") == Status::OK, "writing");
        if (how == 5) { std::string w; sx_assert(search_key(b, s0, "k", w) == Status::OK || true, "reading"); }
        told o;
        sx_assert(commit(b, listen(o, b)) && o.calls == 1, "told at once");
    }
    if (sx_choose(2, "tick") != 0) { sx_tick(); }
    bool d = commit(a, listen(c, a));
    sx_assert(d, "nothing to wait for");
    sx_assert(c.calls == 1, "told exactly once");
    sx_assert(c.rc == Status::OK || static_cast<int>(c.rc) > 0, "committed or refused");
    if (c.rc == Status::OK) { sx_witness(1); }
    else { sx_witness(2); }
    if (how < 4) { sx_assert(c.rc == Status::OK, "nothing can refuse it"); }
    told again;
    sx_assert(commit(a, listen(again, a)) && again.calls == 1 && again.rc == Status::WARN_NOT_BEGIN, "the transaction ended with the call");
    sx_assert(c.calls == 1, "told exactly once");
    char n = now_at(s0);
    if (writes) { sx_assert((n == '1') == (c.rc == Status::OK), "the write took effect exactly if told so"); }
    sx_tick();
    sx_tick();
    sx_assert(c.calls == 1, "told exactly once");
#ifdef PWAL
    int found = 0;
    for (std::size_t i = 0; i < sx_log_size(); i++) {
        if (sx_log_at(i).st != s0 || sx_log_at(i).v != "1") { continue; }
        found++;
        sx_assert(sx_log_at(i).ep == c.dm, "the durability position is the epoch its log belongs to");
    }
    sx_assert(found == (writes && c.rc == Status::OK ? 1 : 0), "the write is in the log exactly if told so");
#endif
    no_log_errors();
    sx_witness(0);
}

// the decision is taken later; other requests come meanwhile
extern "C" void h_callback_wait() {
    start();
    Token o = open_session();
    begin_long(o, {s0});
    begin_long(a, {s1});
    std::string v;
    sx_assert(search_key(a, s0, "k", v) == Status::OK, "reading");
    sx_assert(upsert(a, s1, "k", "1") == Status::OK, "writing");
    auto other = sx_choose(4, "other");
    // the other one writes what was read, reads what was written, both, or nothing
    if ((other & 1U) != 0) { sx_assert(upsert(o, s0, "k", "3") == Status::OK, "writing"); }
    if ((other & 2U) != 0) { sx_assert(search_key(o, s1, "k", v) == Status::OK, "reading"); }
    told c, c2;
    bool d = commit(a, listen(c, a));
    sx_assert(!d && c.calls == 0, "has to wait");
    if (sx_choose(2, "tick") != 0) { sx_tick(); }
    auto mean = sx_choose(4, "meanwhile");
    switch (mean) {
        case 0: break;
        case 1: {
            bool d2 = commit(a, listen(c2, a));
            sx_assert(d2 == (c2.calls == 1), "the return value tells whether the callback was called");
            break;
        }
        case 2: sx_assert(commit(a) == Status::WARN_WAITING_FOR_OTHER_TX, "still waiting"); break;
        default: sx_assert(abort(a) == Status::WARN_ILLEGAL_OPERATION, "cannot be aborted any more"); break;
    }
    sx_assert(c.calls == 0, "not decided yet");
    if (sx_choose(2, "end") != 0) { sx_assert(abort(o) == Status::OK, "abort"); }
    else { sx_assert(commit(o) == Status::OK, "commit"); }
    for (int i = 0; i < 4; i++) { sx_tick(); }
    sx_assert(c.calls == 1, "told exactly once");
    if (mean == 1) { sx_assert(c2.calls == 1 && (c2.rc == c.rc || static_cast<int>(c2.rc) < 0), "a second request is told exactly once, too"); }
    char n = now_at(s1);
    sx_assert(n == (c.rc == Status::OK ? '1' : '0'), "the write took effect exactly if told so");
    if (c.rc == Status::OK) { sx_witness(1); } else { sx_assert(c.rc == Status::ERR_CC, "refused"); sx_witness(2); }
    no_log_errors();
    sx_witness(0);
}

// the session is used again as soon as the callback was called
namespace {
told first, second;
bool second_now, used;
unsigned nextkind;
void c_next(void*) {
    if (nextkind < 2) {
        while (first.calls == 0) { sx_pause(); }
    }
    if (nextkind == 3) {
        // the session is given back and handed out again
        sx_assert(leave(a) == Status::OK, "leave");
        sx_assert(enter(a) == Status::OK, "enter");
    }
    if (nextkind == 2) {
        // the session is asked for a transaction until the old one is over
        while (tx_begin({a, tt::SHORT}) != Status::OK) { sx_pause(); }
        // what belongs to the new one is not taken away by the end of the old one
        TxStateHandle h{}, h2{};
        ScanHandle sc{};
        std::string k;
        sx_assert(acquire_tx_state_handle(a, h) == Status::OK, "state handle");
        sx_assert(open_scan(a, s0, "", scan_endpoint::INF, "", scan_endpoint::INF, sc) == Status::OK, "scan");
        sx_assert(acquire_tx_state_handle(a, h2) == Status::WARN_ALREADY_EXISTS && h2 == h, "the transaction keeps its state handle");
        sx_assert(read_key_from_scan(a, sc, k) == Status::OK && k == "k", "the transaction keeps its scan");
        sx_assert(release_tx_state_handle(h) == Status::OK, "release");
    } else if (nextkind != 1) { begin_short(a); }
    else {
        sx_assert(tx_begin({a, tt::LONG, {s1}}) == Status::OK, "begin");
        for (int i = 0; i < 4; i++) {
            std::string v;
            if (search_key(a, s0, "k", v) != Status::WARN_PREMATURE) { break; }
            sx_tick();
        }
    }
    sx_assert(upsert(a, s1, "k", "5") == Status::OK, "writing");
    second_now = commit(a, listen(second, a));
    used = true;
}
} // namespace
extern "C" void h_callback_next() {
    start();
    Token o = open_session();
    Token o2 = open_session();
    first = second = {};
    used = false;
    begin_long(o, {s0});
    begin_long(a, {s1});
    std::string v;
    sx_assert(search_key(a, s0, "k", v) == Status::OK, "reading");
    sx_assert(upsert(a, s1, "k", "1") == Status::OK, "writing");
    bool d = commit(a, [](Status rc, reason_code, durability_marker_type) {
        first.calls++;
        first.rc = rc;
        __sx_point();
    });
    sx_assert(!d, "has to wait");
    nextkind = static_cast<unsigned>(sx_choose(4, "next"));
    // the second long transaction has to wait as well
    if (nextkind == 1) { begin_long(o2, {s0}); }
    sx_assert(abort(o) == Status::OK, "abort");
    sx_awake = 1U << sx_choose(sx_bg_count(), "awake");
    sx_client(c_next, nullptr);
    sx_run_clients(SX_TIER != 0 ? 3 : 2, true, 0);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    sx_assert(first.calls == 1 && first.rc == Status::OK, "told exactly once");
    sx_assert(second_now == (second.calls == 1) || (nextkind == 1 && !second_now), "the return value tells whether the callback was called");
    if (nextkind == 1) {
        if (second.calls == 0) { sx_witness(1); }
        Status rc = abort(o2);
        sx_assert(rc == Status::OK, "abort");
        for (int i = 0; i < 3; i++) { sx_tick(); }
    }
    sx_assert(second.calls == 1 && second.rc == Status::OK, "the next transaction on the session is told exactly once");
    sx_assert(now_at(s1) == '5', "contents");
    sx_assert(leave(a) == Status::OK, "leave");
    no_log_errors();
    sx_witness(0);
}
