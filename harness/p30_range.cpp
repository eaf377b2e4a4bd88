// P30: range conflict decisions.
#include "common.h"
#include "concurrency_control/include/read_by.h"
#include "concurrency_control/include/read_plan.h"
#include "concurrency_control/include/session.h"
#include "concurrency_control/interface/scan/include/scan.h"
using namespace hx;

namespace {
std::string sym(std::size_t n, const char* name) {
    char b[8];
    sx_bytes(b, n, name);
    return {b, n};
}
// bytewise comparison written out, as a value (no branching on bytes)
int cmp(std::string const& a, std::string const& b) {
    int r = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
    std::size_t n = a.size() < b.size() ? a.size() : b.size();
    for (std::size_t i = n; i > 0; i--) {
        auto x = static_cast<unsigned char>(a[i - 1]), y = static_cast<unsigned char>(b[i - 1]);
        r = x < y ? -1 : x > y ? 1 : r;
    }
    return r;
}
bool inside(std::string const& k, std::string const& l, scan_endpoint le, std::string const& r, scan_endpoint re) {
    int a = cmp(k, l), b = cmp(k, r);
    bool left = (le == scan_endpoint::INF) | (a > 0) | ((a == 0) & (le == scan_endpoint::INCLUSIVE));
    bool right = (re == scan_endpoint::INF) | (b < 0) | ((b == 0) & (re == scan_endpoint::INCLUSIVE));
    return left & right;
}
scan_endpoint ep(const char* n) {
    switch (sx_choose(3, n)) {
        case 0: return scan_endpoint::EXCLUSIVE;
        case 1: return scan_endpoint::INCLUSIVE;
        default: return scan_endpoint::INF;
    }
}
#define KL (SX_TIER ? 4 : 3)
} // namespace

extern "C" void h_overlap() {
    std::string wl = sym(sx_choose(KL, "len"), "write left"), wr = sym(sx_choose(KL, "len"), "write right");
    sx_assume(cmp(wl, wr) <= 0);
    std::string rl = sym(sx_choose(KL, "len"), "read left"), rr = sym(sx_choose(KL, "len"), "read right");
    scan_endpoint le = ep("left end"), re = ep("right end");
    std::string k = sym(sx_choose(KL, "len"), "key");
    bool both = inside(k, wl, scan_endpoint::INCLUSIVE, wr, scan_endpoint::INCLUSIVE) & inside(k, rl, le, rr, re);
    bool r = read_plan::check_range_overlap(wl, wr, rl, le, rr, re);
    sx_assert(!both | r, "ranges with a common key are judged to overlap");
    bool apart = ((le != scan_endpoint::INF) & (cmp(wr, rl) < (le == scan_endpoint::EXCLUSIVE))) |
                 ((re != scan_endpoint::INF) & (cmp(rr, wl) < (re == scan_endpoint::EXCLUSIVE)));
    sx_assert(!apart | !r, "ranges lying apart are judged not to overlap");
    if (both) { sx_witness(0); }
    if (apart) { sx_witness(1); }
}

extern "C" void h_empty() {
    std::string l = sym(sx_choose(KL, "len"), "left"), r = sym(sx_choose(KL, "len"), "right"), k = sym(sx_choose(KL, "len"), "key");
    scan_endpoint le = ep("left end"), re = ep("right end");
    auto rc = check_empty_scan_range(l, le, r, re);
    sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "known answers");
    if (inside(k, l, le, r, re)) { sx_assert(rc == Status::OK, "a range with a key in it is not judged empty"); sx_witness(0); }
    bool crossed = (le != scan_endpoint::INF) & (re != scan_endpoint::INF) & ((cmp(l, r) > 0) | ((cmp(l, r) == 0) & !((le == scan_endpoint::INCLUSIVE) & (re == scan_endpoint::INCLUSIVE))));
    if (crossed) { sx_assert(rc == Status::WARN_NOT_FOUND, "a range with crossed ends is judged empty"); sx_witness(1); }
}

// recorded range reads of committed long transactions
extern "C" void h_range_read() {
    range_read_by_long rr;
    // a fixed recent epoch keeps the collector of old entries away
    const int n = SX_TIER ? 3 : 2;
    std::string l[3], r[3];
    scan_endpoint le[3], re[3];
    std::uint64_t e[3], id[3];
    epoch::set_global_epoch(100);
    epoch::set_cc_safe_ss_epoch(1);
    for (int i = 0; i < n; i++) {
        l[i] = sym(1, "left");
        r[i] = sym(1, "right");
        le[i] = ep("left end");
        re[i] = ep("right end");
        e[i] = 40 + sx_range(8, "epoch");
        id[i] = 1 + sx_range(8, "id");
        // long transactions with lower identifiers begin no later
        for (int j = 0; j < i; j++) { sx_assume((id[j] != id[i]) & ((id[j] < id[i]) == (e[j] <= e[i])) & ((id[j] < id[i]) | (e[j] >= e[i]))); }
        rr.push({e[i], id[i], l[i], le[i], r[i], re[i]});
    }
    std::string k = sym(1, "key");
    std::uint64_t me = 40 + sx_range(8, "own epoch"), mid = 1 + sx_range(16, "own id");
    for (int i = 0; i < n; i++) { sx_assume(mid != id[i]); }
    bool need = false;
    for (int i = 0; i < n; i++) {
        bool in = inside(k, l[i], le[i], r[i], re[i]);
        need = need | (in & (id[i] < mid) & (e[i] >= me));
    }
    bool got = rr.is_exist(me, mid, k);
    sx_assert(!need | got, "a key inside a recorded range is recognised");
    sx_assert(need | !got, "a key outside every recorded range is not");
    if (need) { sx_witness(0); }
    if (!need) { sx_witness(1); }
}

// recorded point reads of committed long transactions, and of short ones
extern "C" void h_point_read() {
    epoch::set_global_epoch(100);
    epoch::set_cc_safe_ss_epoch(1);
    point_read_by_long pr;
    const int n = SX_TIER ? 4 : 3;
    std::uint64_t e[4], id[4];
    bool need = false;
    std::uint64_t me = 40 + sx_range(8, "own epoch"), mid = 1 + sx_range(16, "own id");
    for (int i = 0; i < n; i++) {
        e[i] = 40 + sx_range(8, "epoch");
        id[i] = 1 + sx_range(16, "id");
        sx_assume(id[i] != mid);
        if (i > 0) { sx_assume(id[i] > id[i - 1]); }
        pr.push({e[i], id[i]});
        need = need | ((id[i] < mid) & (e[i] >= me));
    }
    static session s;
    s.set_valid_epoch(me);
    s.set_long_tx_id(mid);
    sx_assert(pr.is_exist(&s) == need, "a read by an earlier-started transaction at or after the own position is recognised");
    // short transactions leave the newest epoch
    std::uint64_t a = sx_u64(64, "epoch"), b = sx_u64(64, "epoch");
    point_read_by_short ps;
    range_read_by_short rs;
    ps.push(a); ps.push(b);
    rs.push(a); rs.push(b);
    std::uint64_t m = a < b ? b : a;
    sx_assert(ps.get_max_epoch() == m && rs.get_max_epoch() == m, "the newest reading epoch is kept");
    if (need) { sx_witness(0); } else { sx_witness(1); }
}

namespace {
struct range { std::string l, r; scan_endpoint le, re; };
range some_range() {
    range x;
    x.le = ep("left end");
    x.re = ep("right end");
    x.l = x.le == scan_endpoint::INF ? std::string() : sym(1, "left");
    x.r = x.re == scan_endpoint::INF ? std::string() : sym(1, "right");
    return x;
}
// scans everything in the range; returns what it saw of key k
bool scan(Token t, Storage st, range const& x, std::string const& k) {
    ScanHandle h{};
    Status rc = open_scan(t, st, x.l, x.le, x.r, x.re, h);
    if (rc == Status::WARN_NOT_FOUND) { return false; }
    sx_assert(rc == Status::OK, "open_scan");
    bool saw = false;
    std::string b;
    while (rc == Status::OK) {
        if (read_key_from_scan(t, h, b) == Status::OK) { saw = saw || b == k; }
        rc = next(t, h);
    }
    sx_assert(rc == Status::WARN_SCAN_LIMIT, "scan ends");
    sx_assert(close_scan(t, h) == Status::OK, "close");
    return saw;
}
} // namespace

// Two long transactions: A reads z and writes k into S; B scans a range of S without seeing A's write and writes z.
// With k inside the range neither order explains both commits.
extern "C" void h_skew() {
    open_db();
    Storage S = make_storage("s"), Z = make_storage("z");
    Token A = open_session(), B = open_session();
    put1(A, S, "m", "0");
    put1(A, Z, "z", "0");
    sx_tick(); sx_tick();
    std::string b;
    begin_long(A, {S});
    sx_assert(search_key(A, Z, "z", b) == Status::OK, "read");
    begin_long(B, {Z});
    range x = some_range();
    std::string k = sym(1, "written key");
    unsigned op = sx_choose(2, "write");
    bool early = sx_choose(2, "order") != 0;
    if (early) { sx_assert((op == 0 ? upsert(A, S, k, "a") : upsert(A, S, k, "a")) == Status::OK, "write"); }
    bool saw = scan(B, S, x, "#none");
    (void) saw;
    if (!early) { sx_assert(upsert(A, S, k, "a") == Status::OK, "write"); }
    sx_assert(upsert(B, Z, "z", "b") == Status::OK, "write");
    if (op == 1) { sx_assert(delete_record(A, S, "m") == Status::OK || k == "m", "delete"); }
    must_commit(A, "nothing hinders the long transaction with priority");
    auto rc = commit(B);
    bool hit = inside(k, x.l, x.le, x.r, x.re);
    if (op == 1) { hit = hit | inside("m", x.l, x.le, x.r, x.re); }
    sx_assert(rc == Status::OK || rc == Status::ERR_CC, "decided");
    if (hit) { sx_assert(rc == Status::ERR_CC, "a write inside a range read by a transaction that must come earlier is a conflict"); sx_witness(0); }
    if (rc == Status::OK) { sx_witness(1); }
    no_log_errors();
}

// R scans a range of Y and sees X as written by L; W did not see that and inserts k into Y: W before L before R.
extern "C" void h_chain() {
    open_db();
    Storage X = make_storage("x"), Y = make_storage("y");
    Token L = open_session(), R = open_session(), W = open_session();
    put1(L, X, "x", "0");
    put1(L, Y, "m", "0");
    sx_tick(); sx_tick();
    std::string b;
    unsigned same_epoch = sx_choose(2, "same epoch");
    sx_assert(tx_begin({L, tt::LONG, {X}}) == Status::OK, "begin");
    if (same_epoch == 0) { sx_tick(); }
    sx_assert(tx_begin({R, tt::LONG, {}}) == Status::OK, "begin");
    if (same_epoch == 0) { sx_tick(); }
    begin_long(W, {Y});
    sx_assert(search_key(W, X, "x", b) == Status::OK && b == "0", "read");
    sx_assert(upsert(L, X, "x", "1") == Status::OK, "write");
    must_commit(L);
    sx_assert(search_key(R, X, "x", b) == Status::OK, "read");
    bool after = b == "1";
    range x = some_range();
    std::string k = sym(1, "written key");
    sx_assert(!scan(R, Y, x, "#none"), "scan");
    unsigned op = sx_choose(3, "write");
    if (op == 0) { sx_assert(insert(W, Y, k, "w") == Status::OK || k == "m", "insert"); }
    else if (op == 1) { sx_assert(upsert(W, Y, k, "w") == Status::OK, "upsert"); }
    else { k = "m"; sx_assert(delete_record(W, Y, k) == Status::OK, "delete"); }
    auto rr = commit(R);
    sx_assert(rr == Status::OK || rr == Status::ERR_CC, "decided");
    auto rc = commit(W);
    sx_assert(rc == Status::OK || rc == Status::ERR_CC, "decided");
    bool hit = inside(k, x.l, x.le, x.r, x.re);
    if (op == 0) { hit = hit & (k != "m"); }
    if (after && rr == Status::OK && hit) { sx_assert(rc == Status::ERR_CC, "a write into a range scanned by a committed later transaction is a conflict"); sx_witness(0); }
    if (rc == Status::OK) { sx_witness(1); }
    no_log_errors();
}

// As h_skew, with B leaving its scan early, reading several ranges, or looking up single keys as well.
extern "C" void h_part() {
    open_db();
    Storage S = make_storage("s"), Z = make_storage("z");
    Token A = open_session(), B = open_session();
    put1(A, S, "d", "0");
    put1(A, S, "m", "0");
    put1(A, Z, "z", "0");
    sx_tick(); sx_tick();
    std::string b;
    begin_long(A, {S});
    sx_assert(search_key(A, Z, "z", b) == Status::OK, "read");
    begin_long(B, {Z});
    std::string k = sym(1, "written key");
    bool hit = false;
    for (int i = 0; i < 2; i++) {
        auto how = sx_choose(4, "look");
        if (how == 0) {
            // one key
            std::string q = sym(1, "key");
            Status rc = search_key(B, S, q, b);
            sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "read");
            hit = hit | (q == k);
        } else if (how == 1) {
            // the last record
            ScanHandle h{};
            sx_assert(open_scan(B, S, "", scan_endpoint::INF, "", scan_endpoint::INF, h, 1, true) == Status::OK, "open_scan");
            sx_assert(read_key_from_scan(B, h, b) == Status::OK && b == "m", "the last record");
            hit = hit | inside(k, "m", scan_endpoint::INCLUSIVE, "", scan_endpoint::INF);
        } else {
            // some or all of a range
            range x;
            x.le = SX_TIER != 0 ? ep("left end") : sx_choose(2, "left end") != 0 ? scan_endpoint::EXCLUSIVE : scan_endpoint::INF;
            x.re = how == 2 ? scan_endpoint::INF : scan_endpoint::EXCLUSIVE;
            x.l = x.le == scan_endpoint::INF ? std::string() : sym(1, "left");
            x.r = how == 2 ? std::string() : sym(1, "right");
            ScanHandle h{};
            Status rc = open_scan(B, S, x.l, x.le, x.r, x.re, h);
            auto steps = SX_TIER != 0 ? sx_choose(3, "stop after") : 2 * sx_choose(2, "stop after");
            while (rc == Status::OK) {
                sx_assert(read_key_from_scan(B, h, b) == Status::OK, "read");
                if (steps-- == 0) { x.r = b; x.re = scan_endpoint::INCLUSIVE; break; }
                rc = next(B, h);
            }
            sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND || rc == Status::WARN_SCAN_LIMIT, "scan");
            hit = hit | inside(k, x.l, x.le, x.r, x.re);
        }
    }
    sx_assert(upsert(A, S, k, "a") == Status::OK, "write");
    sx_assert(upsert(B, Z, "z", "b") == Status::OK, "write");
    must_commit(A, "nothing hinders the long transaction with priority");
    auto rc = commit(B);
    sx_assert(rc == Status::OK || rc == Status::ERR_CC, "decided");
    if (hit) { sx_assert(rc == Status::ERR_CC, "a write inside what a transaction that must come earlier looked at is a conflict"); sx_witness(0); }
    if (rc == Status::OK) { sx_witness(1); }
    no_log_errors();
}
