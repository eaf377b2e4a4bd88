// P08: a short transaction that commits saw no phantom.
#include "common.h"
using namespace hx;

namespace {
// records can lie at the odd places; every place can be inserted into
const char* const K[5] = {"b", "d", "f", "h", "k"};
constexpr int NKEY = 5;
bool live[NKEY];
Token a, b;
Storage st, other;
bool seen[NKEY]; // what the transaction looked at
bool saw[NKEY];  // records it found
bool own[NKEY];  // keys it wrote itself
bool part;       // the look met a record being written and did not learn its state

bool ok_or_nf(Status rc) { return rc == Status::OK || rc == Status::WARN_NOT_FOUND; }

// returns false when the transaction was refused
bool look_scan(int l, int r, bool inc, unsigned limit, int stop, bool rev) {
    ScanHandle h{};
    auto le = l < 0 ? scan_endpoint::INF : inc ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
    auto re = r < 0 ? scan_endpoint::INF : inc ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
    Status rc = open_scan(a, st, l < 0 ? "" : K[l], le, r < 0 ? "" : K[r], re, h, limit, rev);
    int lo = l < 0 ? 0 : inc ? l : l + 1, hi = r < 0 ? NKEY - 1 : inc ? r : r - 1;
    if (rc == Status::ERR_CC) { return false; }
    int at = -1;
    if (rc == Status::OK) {
        for (int n = 0;; n++) {
            std::string k;
            rc = read_key_from_scan(a, h, k);
            if (rc == Status::ERR_CC) { return false; }
            if (rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE) { part = true; }
            else { sx_assert(ok_or_nf(rc), "read in a scan"); }
            if (rc == Status::OK) { for (int i = 0; i < NKEY; i++) { if (k == K[i]) { at = i; saw[i] = true; } } }
            if (n == stop) { break; }
            rc = next(a, h);
            if (rc == Status::ERR_CC) { return false; }
            if (rc == Status::WARN_SCAN_LIMIT) { at = limit != 0 ? at : -1; break; }
            sx_assert(rc == Status::OK, "next");
        }
        if (at < 0 && (limit != 0 || stop >= 0)) { part = true; }
        if (at >= 0) { (rev ? lo : hi) = at; }
    } else {
        sx_assert(rc == Status::WARN_NOT_FOUND, "open");
        if (limit != 0) { part = true; } // gone records count against the limit
    }
    for (int i = lo; i <= hi; i++) { seen[i] = true; }
    return true;
}
int only = -1;
bool look(int kind) {
    switch (kind) {
        case 0: { // look for one key
            int k = only >= 0 ? only : static_cast<int>(sx_choose(NKEY, "looked key"));
            std::string v;
            Status rc = search_key(a, st, K[k], v);
            if (rc == Status::ERR_CC) { return false; }
            if (ok_or_nf(rc)) { seen[k] = true; saw[k] = rc == Status::OK; } else { part = true; }
            return true;
        }
        case 1: {
            int k = only >= 0 ? only : static_cast<int>(sx_choose(NKEY, "looked key"));
            Status rc = exist_key(a, st, K[k]);
            if (rc == Status::ERR_CC) { return false; }
            if (ok_or_nf(rc)) { seen[k] = true; saw[k] = rc == Status::OK; } else { part = true; }
            return true;
        }
        case 2: return look_scan(-1, -1, true, 0, -1, false);
        case 3: {
            bool inc = sx_choose(2, "inclusive") != 0;
            return look_scan(1, 3, inc, 0, -1, false);
        }
        case 4: return look_scan(-1, -1, true, 0, static_cast<int>(sx_choose(2, "stop after")), false);
        case 5: return look_scan(-1, -1, true, 1 + static_cast<unsigned>(sx_choose(2, "limit")), -1, false);
        case 6: return look_scan(-1, -1, true, 1, -1, true);
        default: return look_scan(2, -1, false, 0, -1, false);
    }
}
bool own_write() {
    int k = static_cast<int>(sx_choose(NKEY + 2, "own key"));
    if (k == NKEY) { return true; }
    if (k == NKEY + 1) { return upsert(a, other, "x", "1") == Status::OK; }
    // keep to keys the other one does not touch
    own[k] = true;
    Status rc = upsert(a, st, K[k], "1");
    return rc == Status::OK;
}
} // namespace

extern "C" void h_phantom() {
    open_db();
    st = make_storage("s");
    other = make_storage("t");
    a = open_session();
    b = open_session();
    for (int i = 0; i < NKEY; i++) {
        auto s = i < 4 ? sx_choose(i == 1 ? 3 : 2, "contents") : 0;
        live[i] = s == 1;
        if (s != 0) { put1(b, st, K[i], "0"); }
        if (s == 2) { del1(b, st, K[i]); }
    }
    if (sx_choose(2, "epochs before") != 0) { sx_tick(); sx_tick(); sx_tick(); }
    begin_short(a);
    begin_short(b);
    int bk = static_cast<int>(sx_choose(NKEY, "other's key"));
    int at = static_cast<int>(sx_choose(3, "other's place")); // its operation: before the look, after it, after the own write
    bool before_own = at == 2 ? false : sx_choose(2, "other commits before own write") != 0;
    bool del = live[bk];
    auto do_b = [&] {
        Status rc = del ? delete_record(b, st, K[bk]) : insert(b, st, K[bk], "2");
        if (rc != Status::OK) { sx_end(); } // own uncommitted insert in its way
    };
    bool committed = false;
    auto com_b = [&] { committed = commit(b) == Status::OK; };
    bool fine = true;
    if (at == 0) { do_b(); }
    fine = look(static_cast<int>(sx_choose(8, "look")));
    if (at == 1) { do_b(); }
    if (before_own) { com_b(); }
    if (fine) { fine = own_write(); }
    if (own[bk]) { sx_end(); }
    if (at == 2) { do_b(); }
    if (!before_own) { com_b(); }
    if (SX_TIER != 0 && sx_choose(2, "epochs after") != 0) { sx_tick(); sx_tick(); }
    if (!committed) { sx_end(); }
    Status rc = fine ? commit(a) : Status::ERR_CC;
    sx_assert(rc == Status::OK || rc == Status::ERR_CC, "commit answers");
    if (seen[bk] && !part) {
        sx_assert(rc == Status::ERR_CC, "a transaction whose view a committed insert or delete changed is refused");
        sx_witness(0);
    }
    if (rc == Status::OK) { sx_witness(1); }
    no_log_errors();
}

// the same at any instruction: the other one inserts or deletes and commits while the transaction looks, writes elsewhere and commits
namespace {
Status rc_a, rc_b;
int looked, wkey;
void run_a(void*) {
    bool look_ok = look(looked);
    rc_a = Status::ERR_CC;
    if (look_ok && upsert(a, other, "x", "1") == Status::OK) { rc_a = commit(a); }
}
} // namespace

extern "C" void h_phantom_race() {
    open_db();
    st = make_storage("s");
    other = make_storage("t");
    a = open_session();
    b = open_session();
    auto shape = sx_choose(SX_TIER != 0 ? 4 : 3, "contents");
    const bool sh[4][4] = {{true, true, true, false}, {false, true, true, true}, {true, false, true, false}, {false, false, false, false}};
    for (int i = 0; i < 4; i++) { live[i] = sh[shape][i]; if (live[i]) { put1(b, st, K[i], "0"); } }
    if (shape == 2) { put1(b, st, K[1], "0"); del1(b, st, K[1]); }
    const int looks[4] = {2, 0, 4, 6};
    looked = looks[sx_choose(SX_TIER != 0 ? 4 : 2, "look kind")];
    wkey = static_cast<int>(sx_choose(4, "other's key"));
    only = wkey;
    begin_short(a);
    begin_short(b);
    sx_client(run_a, nullptr);
    sx_client([](void*) {
        Status rc = live[wkey] ? delete_record(b, st, K[wkey]) : insert(b, st, K[wkey], "2");
        rc_b = rc;
        if (rc == Status::OK) {
            // it also reads what the first one writes, so that it cannot come after it
            std::string v;
            rc = search_key(b, other, "x", v);
            rc_b = rc == Status::WARN_NOT_FOUND ? commit(b) : Status::ERR_CC;
        }
    }, nullptr);
    #ifdef SX_ISCAN
    sx_run_clients(SX_TIER != 0 ? 2 : 1);
#else
    sx_run_clients(SX_TIER != 0 ? 3 : 2);
#endif
    // the second one did not see the first one's write: it comes before it, so the first one must have seen its effect
    bool missed = seen[wkey] && saw[wkey] == live[wkey] && !part;
    sx_assert(!(rc_a == Status::OK && rc_b == Status::OK && missed), "of two transactions that missed each other's write one is refused");
    if (rc_a == Status::OK) { sx_witness(0); }
    if (rc_b == Status::OK) { sx_witness(1); }
    if (rc_a != Status::OK && rc_b == Status::OK) { sx_witness(2); }
    no_log_errors();
}
