// P07: a scan delivers exactly the live records of its range.
#include "common.h"
using namespace hx;

namespace {
const char* const K[4] = {"b", "d", "dd", "f"};
int now[4]; // value letter, 0 when not there
bool odd[4]; // index entry without a live record possible
bool lt(std::string_view a, std::string_view b) { return a.compare(b) < 0; }
bool inside(std::string_view k, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re) {
    if (le != scan_endpoint::INF && (lt(k, l) || (le == scan_endpoint::EXCLUSIVE && k == l))) { return false; }
    return re == scan_endpoint::INF || !(lt(r, k) || (re == scan_endpoint::EXCLUSIVE && k == r));
}
scan_endpoint ep(const char* n) {
    switch (sx_choose(3, n)) {
        case 0: return scan_endpoint::INCLUSIVE;
        case 1: return scan_endpoint::EXCLUSIVE;
        default: return scan_endpoint::INF;
    }
}
std::string end_key(const char* n) {
    char c[2];
    std::size_t len = sx_choose(SX_TIER != 0 ? 3 : 2, "length");
    sx_bytes(c, len, n);
    return {c, len};
}
void write_own(Token t, Storage st) {
    int k = static_cast<int>(sx_choose(5, "own key"));
    if (k == 4) { return; }
    int was = now[k];
    Status rc{};
    if (sx_choose(2, "own op") == 0) {
        rc = upsert(t, st, K[k], "o");
        sx_assert(rc == Status::OK, "upsert");
        now[k] = 'o';
    } else {
        rc = delete_record(t, st, K[k]);
        bool done = rc == Status::OK || rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT;
        sx_assert(was != 0 ? done : rc == Status::WARN_NOT_FOUND, "delete");
        now[k] = 0;
        odd[k] = true;
    }
}
void contents(Token t, Storage st, int n, unsigned states) {
    for (int i = 0; i < n; i++) {
        auto s = sx_choose(states, "contents");
        now[i] = 0;
        odd[i] = false;
        if (s == 0) { continue; }
        char v = static_cast<char>('1' + i);
        put1(t, st, K[i], {&v, 1});
        if (s == 1) { now[i] = v; } else { del1(t, st, K[i]); odd[i] = true; }
    }
}
struct want { int k[4]; int n{0}; bool loose{false}; };
want expect(std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re, bool rev) {
    want w;
    for (int i = 0; i < 4; i++) {
        int j = rev ? 3 - i : i;
        if (!inside(K[j], l, le, r, re)) { continue; }
        if (odd[j]) { w.loose = true; }
        if (now[j] != 0) { w.k[w.n++] = j; }
    }
    return w;
}
// follows the handle to the end; order of reading key and value chosen by the caller
int follow(Token t, ScanHandle h, want const& w, bool value_first) {
    int n = 0;
    for (;;) {
        std::string k, v;
        Status a{}, b{};
        if (value_first) { b = read_value_from_scan(t, h, v); a = read_key_from_scan(t, h, k); }
        else { a = read_key_from_scan(t, h, k); b = read_value_from_scan(t, h, v); }
        sx_assert(a == b && (a == Status::OK || a == Status::WARN_NOT_FOUND), "the record under the cursor can be read");
        if (a == Status::OK) {
        sx_assert(n < w.n, "no more records are delivered than the range holds");
        int j = w.k[n];
        sx_assert(k == K[j], "the records come in order, each once");
        sx_assert(v.size() == 1 && v[0] == now[j], "with their current values");
        n++;
        }
        // a record that is gone may be met and answered as not found
        Status rc = next(t, h);
        if (rc == Status::WARN_SCAN_LIMIT) { break; }
        sx_assert(rc == Status::OK, "advancing either succeeds or reaches the end");
    }
    return n;
}
void scan_range(Token t, Storage st, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re, unsigned limit, bool rev, bool value_first) {
    want w = expect(l, le, r, re, rev);
    int most = limit != 0 && static_cast<int>(limit) < w.n ? static_cast<int>(limit) : w.n;
    ScanHandle h{};
    Status rc = open_scan(t, st, l, le, r, re, h, limit, rev);
    sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "open_scan answers");
    // index entries of records that are gone count against the limit
    bool loose = limit != 0 && w.loose;
    if (rc == Status::WARN_NOT_FOUND) {
        sx_assert(w.n == 0 || loose, "a range with records is not reported empty");
        sx_witness(1);
        return;
    }
    sx_assert(w.n > 0 || w.loose, "an empty range is reported as not found");
    w.n = most;
    int n = follow(t, h, w, value_first);
    sx_assert(n == most || loose, "all records of the range are delivered");
    sx_assert(close_scan(t, h) == Status::OK, "closing succeeds");
    if (n > 2) { sx_witness(0); }
}
Token begin(Token t, Storage st, int kind) {
    if (kind == 0) { begin_short(t); } else if (kind == 1) { begin_long(t, {st}); } else { begin_ro(t); }
    return t;
}
} // namespace

extern "C" void h_scan_range() {
    open_db();
    Storage o = make_storage("a"), st = make_storage("s"), z = make_storage("z");
    Token t = open_session();
    // neighbours in other storages must not show
    put1(t, o, "d", "x");
    put1(t, z, "d", "y");
    contents(t, st, 4, 2);
    int kind = static_cast<int>(sx_choose(3, "kind"));
    begin(t, st, kind);
    auto le = ep("left end"), re = ep("right end");
    std::string l = end_key("left"), r = end_key("right");
    scan_range(t, st, l, le, r, re, 0, false, false);
    must_commit(t);
    no_log_errors();
}

extern "C" void h_scan_limit() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    contents(t, st, 4, 3);
    int kind = static_cast<int>(sx_choose(3, "kind"));
    begin(t, st, kind);
    if (kind != 2) { write_own(t, st); }
    const char* ends[] = {"b", "d", "f"};
    auto s = sx_choose(4, "shape");
    bool vf = sx_choose(2, "value first") != 0;
    if (s == 0) { scan_range(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, static_cast<unsigned>(sx_choose(5, "limit")), false, vf); }
    else if (s == 1) { scan_range(t, st, ends[sx_choose(3, "left")], ep("left end"), "", scan_endpoint::INF, 1, true, vf); }
    else if (s == 2) { scan_range(t, st, ends[sx_choose(3, "left")], scan_endpoint::EXCLUSIVE, "f", scan_endpoint::INCLUSIVE, static_cast<unsigned>(sx_choose(3, "limit")), false, vf); }
    else {
        // refused shapes
        ScanHandle h{};
        bool inf = sx_choose(2, "right end") != 0;
        unsigned lim = static_cast<unsigned>(sx_choose(3, "limit"));
        if (inf && lim == 1) { sx_end(); }
#ifdef SX_ISCAN
        // iterator based scans have no such limits
        scan_range(t, st, "b", scan_endpoint::EXCLUSIVE, "f", inf ? scan_endpoint::INF : scan_endpoint::EXCLUSIVE, lim, true, vf);
        return;
#endif
        sx_assert(open_scan(t, st, "", scan_endpoint::INF, "f", inf ? scan_endpoint::INF : scan_endpoint::INCLUSIVE, h, lim, true) == Status::ERR_FATAL, "a reverse scan beyond its limits is refused");
    }
    if (s < 3) { must_commit(t); no_log_errors(); }
}

// several scans in a row, writes of the own transaction in between and behind the cursor
extern "C" void h_scan_own() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    contents(t, st, 4, SX_TIER != 0 ? 3 : 2);
    int kind = static_cast<int>(sx_choose(2, "kind"));
    begin(t, st, kind);
    write_own(t, st);
    scan_range(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, 0, false, false);
    write_own(t, st);
    scan_range(t, st, "b", scan_endpoint::EXCLUSIVE, "", scan_endpoint::INF, 0, false, true);
    scan_range(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, 0, false, false);
    must_commit(t);
    begin_short(t);
    scan_range(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, 0, false, true);
    must_commit(t);
    no_log_errors();
}
