// P34: no call corrupts memory, ends the process or blocks for ever.
// Every access of every path is checked by the executor; here the calls are put together in ways the
// other checks do not need.
#include <sstream>
#include "hist.h"
using namespace hist;

namespace {
Storage s0, s1;
Token a, b;
ScanHandle h[2];
bool opened;
TxStateHandle th;
SequenceId q;
bool waiting; // the commit of a was requested
bool called;
void known(Status rc) { sx_assert(rc != Status::ERR_FATAL, "no fatal error"); }

std::string_view key(std::uint64_t k) {
    static const char* const ks[] = {"a", "b", "", "aaaaaaaabbbbbbbbccccccccddddddddeeeeeeee"};
    return ks[k];
}
void begin(Token t, tt kind) {
    transaction_options o{t, kind};
    if (kind == tt::LONG) { o = transaction_options{t, kind, {s0}, {{}, {}}}; }
    known(tx_begin(o));
}
void setup() {
    open_db();
    s0 = make_storage("s");
    s1 = make_storage("t");
    sx_assert(create_sequence(&q) == Status::OK, "create");
    a = open_session();
    b = open_session();
    begin_short(b);
    for (int i = 0; i < 2; i++) { sx_assert(upsert(b, s0, key(static_cast<unsigned>(i)), "0") == Status::OK, "fill"); }
    must_commit(b);
    sx_tick();
    opened = waiting = called = false;
    h[0] = h[1] = 0;
    th = 0;
}
// one call of session t; only what is allowed at the time
void call(Token t, std::uint64_t c) {
    std::string v;
    bool flag{};
    std::size_t n{};
    bool mine = t == a;
    switch (c) {
        case 0: known(insert(t, s0, key(2), "x")); break;
        case 1: known(upsert(t, s0, key(0), "a longer value that needs memory of its own")); break;
        case 2: known(update(t, s0, key(1), "")); break;
        case 3: known(delete_record(t, s0, key(0))); break;
        case 4: known(search_key(t, s0, key(0), v)); break;
        case 5: { // a scan of everything that stays open
            if (mine && opened) { known(next(t, h[0])); break; }
            Status rc = open_scan(t, s0, "", scan_endpoint::INF, "", scan_endpoint::INF, h[mine ? 0 : 1], mine ? 0 : 1, !mine);
            known(rc);
            if (rc == Status::OK && mine) { opened = true; }
            if (rc == Status::OK && !mine) { known(read_value_from_scan(t, h[1], v)); }
            break;
        }
        case 6: if (mine && opened) { known(read_key_from_scan(t, h[0], v)); known(scannable_total_index_size(t, h[0], n)); } break;
        case 7: known(abort(t)); break;
        case 8: if (mine) {
                commit(t, [](Status rc, reason_code, durability_marker_type) { known(rc); called = true; waiting = false; });
                waiting = !called;
            } else { known(commit(t)); }
            break;
        case 9: begin(t, tt::SHORT); break;
        case 10: begin(t, tt::LONG); break;
        case 11: sx_tick(); break;
        case 12: known(delete_record(t, s0, key(2))); break;
        case 13: { std::ostringstream o; print_diagnostics(o); break; }
        case 14: known(check_ltx_is_highest_priority(t, flag)); known(get_tx_id(t, v)); break;
        case 15: known(acquire_tx_state_handle(t, th)); break;
        case 16: { TxState st; known(check_tx_state(th, st)); known(release_tx_state_handle(th)); break; }
        case 17: known(update_sequence(t, q, 5, 5)); break;
        case 18: known(insert(t, s1, key(3), "y")); break;
        case 19: if (mine && opened) { known(close_scan(t, h[0])); opened = false; } break;
        default: begin(t, tt::READ_ONLY); break;
    }
    if (c >= 7 && c <= 10) { if (mine) { opened = false; } }
}
void finish() {
    abort(b);
    for (int i = 0; i < 6 && waiting; i++) { sx_tick(); }
    sx_assert(!waiting, "decided");
    abort(a);
    sx_assert(leave(a) == Status::OK && leave(b) == Status::OK, "leave");
    sx_tick();
    // and it still works
    Token t = open_session();
    put1(t, s0, "z", "1");
    begin_short(t);
    std::string v;
    sx_assert(search_key(t, s0, "z", v) == Status::OK && v == "1", "reading");
    must_commit(t);
    fin();
    no_log_errors();
}
} // namespace

// any calls of two sessions, one of them in a transaction of any kind
extern "C" void h_calls() {
    setup();
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    begin(a, kind);
    if (kind != tt::SHORT) { sx_tick(); sx_tick(); }
    begin(b, tt::SHORT);
    for (int i = 0; i < (SX_TIER == 0 ? 3 : 4); i++) {
        auto c = sx_choose(20 + 6, "call");
        static const std::uint64_t others[] = {0, 1, 3, 5, 8, 12};
        bool mine = c < 20;
        if (mine && waiting && c != 7 && c != 11 && c != 13 && c != 16) { continue; }
        // the scan of a may have been closed by the end of its transaction
        std::string id;
        if (opened && get_tx_id(a, id) != Status::OK) { opened = false; }
        call(mine ? a : b, mine ? c : others[c - 20]);
        if (c == 7) { sx_witness(1); }
    }
    finish();
    sx_witness(0);
}

// keys and values of any length around the limits, any bytes
extern "C" void h_sizes() {
    setup();
    auto kind = static_cast<tt>(sx_choose(2, "kind") != 0 ? tt::LONG : tt::SHORT);
    begin(a, kind);
    if (kind == tt::LONG) { sx_tick(); sx_tick(); }
    static const std::size_t lens[] = {0, 1, 7, 8, 9, 16, 30 * 1024 - 1, 30 * 1024, 30 * 1024 + 1};
    std::size_t const kl = lens[sx_choose(9, "key length")];
    std::size_t const vl = lens[sx_choose(kl < 100 ? 9 : 3, "value length")];
    std::string k(kl, 'k'), v(vl, 'v');
    for (std::size_t i = 0; i < 3; i++) {
        if (i < kl) { k[kl - 1 - i] = static_cast<char>(sx_u64(8, "key")); }
        if (i < vl) { v[vl - 1 - i] = static_cast<char>(sx_u64(8, "value")); }
    }
    if (kl == 1) { sx_assume(k != "a" && k != "b"); }
    bool big = kl > 30 * 1024;
    Status want = big ? Status::WARN_INVALID_KEY_LENGTH : Status::OK;
    std::string out;
    if (sx_choose(2, "upsert") != 0) { sx_assert(upsert(a, s0, k, v) == want, "writing"); }
    else { sx_assert(insert(a, s0, k, v) == want, "inserting"); }
    if (!big) { sx_assert(search_key(a, s0, k, out) == Status::OK && out == v, "reading it back"); }
    must_commit(a);
    sx_tick();
    begin_short(a);
    Status rc = search_key(a, s0, k, out);
    sx_assert(big ? rc != Status::OK : rc == Status::OK && out == v, "reading it later");
    if (!big) {
        sx_assert(update(a, s0, k, "") == Status::OK, "updating");
        ScanHandle sh{};
        sx_assert(open_scan(a, s0, k, scan_endpoint::INCLUSIVE, k, scan_endpoint::INCLUSIVE, sh) == Status::OK, "scanning");
        sx_assert(read_key_from_scan(a, sh, out) == Status::OK && out == k, "the key");
        sx_assert(read_value_from_scan(a, sh, out) == Status::OK && out.empty(), "the value");
        sx_assert(next(a, sh) == Status::WARN_SCAN_LIMIT, "only that");
        sx_assert(delete_record(a, s0, k) == Status::OK, "deleting");
        sx_witness(1);
    }
    must_commit(a);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    finish();
    sx_witness(0);
}

namespace {
tt k0;
void c_user(void*) {
    begin(a, k0);
    sx_tick();
    sx_tick();
    std::string v;
    known(search_key(a, s0, "a", v));
    known(upsert(a, s0, "b", "1"));
    auto how = sx_choose(3, "end");
    if (how == 0) { known(abort(a)); }
    else if (how == 1) { known(commit(a)); }
    else { known(leave(a)); a = nullptr; }
}
void c_watch(void*) {
    std::ostringstream o;
    print_diagnostics(o);
    sx_assert(!o.str().empty(), "something is printed");
}
} // namespace
// diagnostics while a transaction goes through its life
extern "C" void h_watch() {
    setup();
    k0 = static_cast<tt>(sx_choose(3, "kind"));
    sx_client(c_user, nullptr);
    sx_client(c_watch, nullptr);
    sx_run_clients(SX_TIER == 0 ? 1 : 2);
    if (a == nullptr) { a = open_session(); }
    finish();
    sx_witness(0);
}

namespace {
unsigned what;
void c_scan(void*) {
    ScanHandle sh{};
    std::string v;
    Status rc = open_scan(a, s0, "", scan_endpoint::INF, "", scan_endpoint::INF, sh, what == 1 ? 1 : 0, what == 1);
    known(rc);
    for (int i = 0; rc == Status::OK && i < 6; i++) {
        rc = read_key_from_scan(a, sh, v);
        known(rc);
        if (rc == Status::OK) { rc = read_value_from_scan(a, sh, v); known(rc); }
        if (static_cast<int>(rc) > 0) { break; }
        rc = next(a, sh);
        known(rc);
    }
    known(commit(a));
}
void c_change(void*) {
    begin_short(b);
    known(delete_record(b, s0, "a"));
    known(insert(b, s0, "aa", "1"));
    known(commit(b));
    sx_tick();
    sx_tick();
    begin_short(b);
    known(upsert(b, s0, "a", "2"));
    known(delete_record(b, s0, "b"));
    known(commit(b));
    sx_tick();
    sx_tick();
}
} // namespace
// a scan standing between the records while they are removed, collected and put in again
extern "C" void h_scan() {
    setup();
    k0 = static_cast<tt>(sx_choose(3, "kind"));
    what = static_cast<unsigned>(sx_choose(2, "reverse"));
    begin(a, k0);
    sx_tick();
    sx_tick();
    sx_client(c_scan, nullptr);
    sx_client(c_change, nullptr);
    sx_run_clients(SX_TIER == 0 ? 1 : 2);
    finish();
    sx_witness(0);
}

namespace {
Status lost;
void c_lose(void*) {
    lost = commit(a);
    known(lost);
    auto info = transaction_result_info(a);
    sx_assert(info != nullptr, "there is a result");
    std::string k(info->get_key());
    std::string s(info->get_storage_name());
    if (lost == Status::ERR_KVS) { sx_assert(k == "a" || k == "c", "the key it lost for"); sx_witness(1); }
}
void c_collect(void*) {
    if (what != 0) {
        begin_short(b);
        known(delete_record(b, s0, what == 1 ? "c" : "a"));
        known(commit(b));
    }
    for (int i = 0; i < 4; i++) { sx_tick(); }
}
} // namespace
// a commit that loses against a record which is removed and collected meanwhile
extern "C" void h_lose() {
    setup();
    auto op = sx_choose(5, "op");
    bool early = sx_choose(2, "early") != 0; // the other one was there before
    k0 = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    begin(a, k0);
    if (k0 == tt::LONG) { sx_tick(); sx_tick(); }
    std::string v;
    switch (op) {
        case 0: known(update(a, s0, "a", "1")); break;
        case 1: known(delete_record(a, s0, "a")); break;
        case 2: known(insert(a, s0, "c", "1")); break;
        case 3: known(search_key(a, s0, "a", v)); known(upsert(a, s0, "b", "1")); break;
        default: {
            ScanHandle sh{};
            known(open_scan(a, s0, "", scan_endpoint::INF, "", scan_endpoint::INF, sh));
            known(read_key_from_scan(a, sh, v));
            known(upsert(a, s0, "b", "1"));
            break;
        }
    }
    what = 2;
    if (early) {
        begin_short(b);
        if (op == 2) { known(insert(b, s0, "c", "2")); what = 1; }
        else { known(delete_record(b, s0, "a")); what = 0; }
        known(commit(b));
    }
    sx_client(c_lose, nullptr);
    sx_client(c_collect, nullptr);
    sx_run_clients(SX_TIER != 0 ? 3 : k0 == tt::LONG ? 1 : 2);
    finish();
    sx_witness(0);
}
