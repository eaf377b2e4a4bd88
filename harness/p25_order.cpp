// P25: beginning a transaction and using it out of order.
#include "common.h"
#include "shirakami/api_sequence.h"
#include "shirakami/api_tx_id.h"
#include "shirakami/result_info.h"
using namespace hx;

namespace {
Storage s, u;
Token t, w;
SequenceId q;
void start() {
    open_db();
    s = make_storage("s");
    u = make_storage("u");
    t = open_session();
    w = open_session();
    put1(w, s, "a", "0");
    put1(w, u, "a", "0");
    sx_assert(create_sequence(&q) == Status::OK, "a sequence");
    for (int i = 0; i < 3; i++) { sx_tick(); }
}
// nothing but the contents of the beginning; writes are possible
void untouched(const char* a = "0") {
    std::string v;
    begin_short(w);
    sx_assert(search_key(w, s, "a", v) == Status::OK && v == a, "a refused call has no effect");
    sx_assert(search_key(w, s, "n", v) == Status::WARN_NOT_FOUND, "a refused call has no effect");
    sx_assert(search_key(w, u, "a", v) == Status::OK && v == "0", "a refused call has no effect");
    sx_assert(upsert(w, s, "w", "1") == Status::OK && upsert(w, u, "w", "1") == Status::OK, "write");
    must_commit(w, "a refused call leaves nothing that hinders others");
    SequenceVersion ver{};
    SequenceValue val{};
    sx_assert(read_sequence(q, &ver, &val) == Status::OK && val == 0, "a refused call has no effect");
}
void begin_kind(tt k) {
    if (k == tt::SHORT) { begin_short(t); }
    else if (k == tt::LONG) { begin_long(t, {s}); }
    else { begin_ro(t); }
}
} // namespace

// no call takes effect without a begun transaction, whatever was before
extern "C" void h_use() {
    start();
    std::string v;
    ScanHandle h{};
    TxStateHandle th{};
    auto before = sx_choose(6, "before");
    const char* a = "0";
    auto kind = static_cast<tt>(sx_choose(before == 0 ? 1 : 3, "kind"));
    if (before == 1 || before == 2 || before == 3) {
        begin_kind(kind);
        if (before == 3) { sx_assert(open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h) == Status::OK, "scan"); }
        else if (kind != tt::READ_ONLY) { sx_assert(upsert(t, s, "a", "1") == Status::OK, "write"); }
        if (before == 1) {
            must_commit(t);
            if (kind != tt::READ_ONLY) { a = "1"; }
        } else if (before == 2) {
            sx_assert(abort(t) == Status::OK, "abort");
        } else {
            must_commit(t);
        }
    } else if (before == 4) {
        // a begin that is refused
        Status rc = kind == tt::LONG ? tx_begin({t, kind, {s, 12345}}) : tx_begin({t, kind, {s}});
        sx_assert(rc == (kind == tt::LONG ? Status::WARN_INVALID_ARGS : Status::WARN_ILLEGAL_OPERATION), "a begin with options that make no sense is refused");
        sx_witness(1);
    } else if (before == 5) {
        // ended by the engine
        if (kind == tt::READ_ONLY) { sx_end(); }
        if (kind == tt::LONG) {
            sx_assert(tx_begin({t, tt::LONG, {s}, {{s}, {}}}) == Status::OK, "begin");
            sx_tick();
            sx_tick();
            sx_assert(upsert(t, s, "a", "1") == Status::OK, "write");
            sx_assert(search_key(t, u, "a", v) == Status::ERR_READ_AREA_VIOLATION, "refused");
        } else {
            begin_short(t);
            sx_assert(search_key(t, s, "a", v) == Status::OK, "read");
            put1(w, s, "a", "0");
            sx_assert(upsert(t, s, "a", "1") == Status::OK, "write");
            sx_assert(commit(t) == Status::ERR_CC, "refused");
        }
    }
    if (sx_choose(2, "later") != 0) { sx_tick(); sx_tick(); }
    Status rc{};
    int called = 0;
    std::size_t n{};
    switch (sx_choose(19, "call")) {
        case 0: rc = search_key(t, s, "a", v); break;
        case 1: rc = exist_key(t, s, "a"); break;
        case 2: rc = insert(t, s, "n", "1"); break;
        case 3: rc = update(t, s, "a", "9"); break;
        case 4: rc = upsert(t, s, "a", "9"); break;
        case 5: rc = upsert(t, s, "n", "9"); break;
        case 6: rc = delete_record(t, s, "a"); break;
        case 7: rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h); break;
        case 8: rc = next(t, h); break;
        case 9: rc = read_key_from_scan(t, h, v); break;
        case 10: rc = read_value_from_scan(t, h, v); break;
        case 11: rc = scannable_total_index_size(t, h, n); break;
        case 12: rc = close_scan(t, h); break;
        case 13: rc = commit(t); break;
        case 14: {
            rc = Status::OK;
            bool d = commit(t, [&called, &rc](Status r, reason_code, durability_marker_type) { called++; rc = r; });
            sx_assert(d && called == 1, "told at once");
            break;
        }
        case 15: rc = abort(t); break;
        case 16: rc = update_sequence(t, q, 5, 50); break;
        case 17: rc = get_tx_id(t, v); break;
        default: rc = acquire_tx_state_handle(t, th); break;
    }
    sx_assert(rc == Status::WARN_NOT_BEGIN, "a call without a begun transaction is refused");
    untouched(a);
    // and one can be begun
    begin_kind(static_cast<tt>(sx_choose(3, "then")));
    sx_assert(search_key(t, s, "a", v) == Status::OK && v == a, "it reads what is committed");
    must_commit(t);
    no_log_errors();
    sx_witness(0);
}

// a begin while one is running
extern "C" void h_begin() {
    start();
    std::string v;
    std::string id;
    std::string id2;
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    auto phase = sx_choose(3, "phase"); // just begun, active, has written or read
    if (kind == tt::SHORT) { begin_short(t); }
    else if (kind == tt::LONG) { begin_long(t, {s}, phase != 0); }
    else { begin_ro(t, phase != 0); }
    if (phase == 2) {
        if (kind == tt::READ_ONLY) { sx_assert(search_key(t, s, "a", v) == Status::OK, "read"); }
        else { sx_assert(upsert(t, s, "n", "1") == Status::OK, "write"); }
    }
    sx_assert(get_tx_id(t, id) == Status::OK, "it has an identifier");
    for (int i = 0; i < 2; i++) {
        auto other = static_cast<tt>(sx_choose(3, "other"));
        Status rc{};
        switch (sx_choose(4, "options")) {
            case 0: rc = tx_begin({t, other}); break;
            case 1: rc = tx_begin({t, other, {u}}); break;
            case 2: rc = tx_begin({t, other, {54321}}); break;
            default: rc = tx_begin({t, other, {}, {{u}, {s}}}); break;
        }
        sx_assert(rc == Status::WARN_ALREADY_BEGIN, "a begin while one is running is refused");
    }
    sx_assert(get_tx_id(t, id2) == Status::OK && id2 == id, "the running one goes on");
    // nothing of the refused ones holds
    put1(w, u, "b", "1");
    for (int i = 0; i < 2; i++) { sx_tick(); }
    sx_assert(search_key(t, s, "a", v) == Status::OK && v == "0", "no read area came from a refused begin");
    Status rc = upsert(t, s, "m", "1");
    sx_assert(rc == (kind == tt::READ_ONLY ? Status::WARN_ILLEGAL_OPERATION : Status::OK), "the running one keeps its kind");
    rc = upsert(t, u, "m", "1");
    sx_assert(rc == (kind == tt::READ_ONLY ? Status::WARN_ILLEGAL_OPERATION : kind == tt::LONG ? Status::WARN_WRITE_WITHOUT_WP : Status::OK), "the running one keeps its options");
    bool commits = sx_choose(2, "end") != 0;
    if (commits) { must_commit(t); } else { sx_assert(abort(t) == Status::OK, "abort"); }
    sx_assert(abort(t) == Status::WARN_NOT_BEGIN, "it is over");
    begin_short(w);
    rc = search_key(w, s, "m", v);
    sx_assert(rc == (commits && kind != tt::READ_ONLY ? Status::OK : Status::WARN_NOT_FOUND), "it ended as it was told");
    rc = search_key(w, s, "n", v);
    sx_assert(rc == (commits && kind != tt::READ_ONLY && phase == 2 ? Status::OK : Status::WARN_NOT_FOUND), "it ended as it was told");
    must_commit(w);
    begin_short(t);
    sx_assert(get_tx_id(t, id2) == Status::OK && id2 != id, "another transaction has another identifier");
    must_commit(t);
    no_log_errors();
    if (commits) { sx_witness(1); }
    sx_witness(0);
}

// a long transaction whose commit was requested and waits
extern "C" void h_requested() {
    start();
    std::string v;
    Token o = open_session();
    // o is older and may write what t has read
    begin_long(o, {u});
    begin_long(t, {s});
    sx_assert(search_key(t, u, "a", v) == Status::OK && v == "0", "read");
    bool writes = sx_choose(2, "writes") != 0;
    if (writes) { sx_assert(upsert(t, s, "a", "1") == Status::OK, "write"); }
    int called = 0;
    Status told{};
    bool cb = sx_choose(2, "callback") != 0;
    if (cb) {
        bool d = commit(t, [&called, &told](Status r, reason_code, durability_marker_type) { called++; told = r; });
        sx_assert(!d && called == 0, "it waits");
    } else {
        sx_assert(commit(t) == Status::WARN_WAITING_FOR_OTHER_TX, "it waits");
    }
    const int calls = SX_TIER != 0 ? 3 : 2;
    for (int i = 0; i < calls; i++) {
        switch (sx_choose(6, "again")) {
            case 0: {
                Status rc = commit(t);
                sx_assert(rc == Status::WARN_WAITING_FOR_OTHER_TX || rc == Status::WARN_ILLEGAL_OPERATION, "it cannot be committed again");
                break;
            }
            case 1: {
                int c2 = 0;
                Status r2{};
                bool d = commit(t, [&c2, &r2](Status r, reason_code, durability_marker_type) { c2++; r2 = r; });
                sx_assert(d && c2 == 1 && r2 == Status::WARN_ILLEGAL_OPERATION, "it cannot be committed again");
                break;
            }
            case 2: {
                sx_assert(abort(t) == Status::WARN_ILLEGAL_OPERATION, "it cannot be aborted");
                auto ri = transaction_result_info(t);
                sx_assert(ri == nullptr || ri->get_reason_code() == reason_code::UNKNOWN, "a refused abort is not what ends it");
                break;
            }
            case 3: sx_assert(tx_begin({t, static_cast<tt>(sx_choose(3, "other"))}) == Status::WARN_ALREADY_BEGIN, "it is still running"); break;
            case 4: sx_tick(); break;
            default: break;
        }
        sx_assert(called == 0, "it is not decided yet");
    }
    // the older one ends
    bool conflict = false;
    switch (sx_choose(3, "older")) {
        case 0: sx_assert(abort(o) == Status::OK, "abort"); break;
        case 1: must_commit(o); break;
        default: sx_assert(upsert(o, u, "a", "2") == Status::OK, "write"); must_commit(o); conflict = true; break;
    }
    for (int i = 0; i < 4; i++) { sx_tick(); }
    Status rc = told;
    if (!cb) {
        sx_assert(commit(t) == Status::WARN_NOT_BEGIN, "it is decided");
        rc = transaction_result_info(t)->get_reason_code() == reason_code::UNKNOWN ? Status::OK : Status::ERR_CC;
    }
    sx_assert(cb ? called == 1 : called == 0, "it is decided once");
    sx_assert(rc == Status::OK || (conflict && rc == Status::ERR_CC), "the request decides, not the calls that were refused");
    if (rc == Status::OK && conflict) { sx_witness(1); }
    begin_short(w);
    sx_assert(search_key(w, s, "a", v) == Status::OK && v == (writes && rc == Status::OK ? "1" : "0"), "and its writes follow");
    must_commit(w);
    sx_assert(abort(t) == Status::WARN_NOT_BEGIN, "it is over");
    begin_short(t);
    must_commit(t);
    no_log_errors();
    sx_witness(0);
}
