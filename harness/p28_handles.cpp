// P28: scan handles live from open to close.
#include "common.h"
using namespace hx;

namespace {
Storage s, u;
Token t, o;
struct cursor {
    ScanHandle h{};
    bool open{false};
    const char* keys{};
    int n{0};
    int at{0};
};
constexpr int MAXC = 4;
cursor c[MAXC];
int used;
ScanHandle foreign;

void open_one(bool first = false) {
    if (used == MAXC) { sx_end(); }
    cursor& x = c[used];
    Status rc{};
    switch (first ? 0 : sx_choose(5, "range")) {
        case 0: rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, x.h); x.keys = "abc"; break;
        case 1: rc = open_scan(t, s, "a", scan_endpoint::EXCLUSIVE, "c", scan_endpoint::INCLUSIVE, x.h); x.keys = "bc"; break;
        case 2: rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, x.h, 1, true); x.keys = "c"; break;
        case 3: rc = open_scan(t, u, "", scan_endpoint::INF, "", scan_endpoint::INF, x.h); x.keys = "xy"; break;
        default: {
            // nothing in it: there is no handle then
            ScanHandle h{};
            rc = open_scan(t, u, "a", scan_endpoint::INCLUSIVE, "b", scan_endpoint::INCLUSIVE, h);
            sx_assert(rc == Status::WARN_NOT_FOUND, "a scan of an empty range");
            return;
        }
    }
    sx_assert(rc == Status::OK, "a scan is opened");
    sx_assert(x.h != nullptr, "it has a handle");
    for (int i = 0; i < used; i++) { sx_assert(!c[i].open || c[i].h != x.h, "handles in use are distinct"); }
    x.n = static_cast<int>(std::strlen(x.keys));
    x.at = 0;
    x.open = true;
    used++;
}
cursor& pick() {
    if (used == 0) { sx_end(); }
    cursor& x = c[sx_choose(static_cast<unsigned>(used), "which")];
    if (!x.open) { sx_end(); }
    return x;
}
void step(cursor& x) {
    Status rc = next(t, x.h);
    if (x.at < x.n) { x.at++; }
    sx_assert(rc == (x.at < x.n ? Status::OK : Status::WARN_SCAN_LIMIT), "each handle advances on its own");
}
void read(cursor& x) {
    std::string k;
    std::string v;
    Status rc = read_key_from_scan(t, x.h, k);
    Status rv = read_value_from_scan(t, x.h, v);
    if (x.at == x.n) {
        sx_assert(rc == Status::WARN_SCAN_LIMIT && rv == Status::WARN_SCAN_LIMIT, "there is nothing after the end");
        return;
    }
    sx_assert(rc == Status::OK && rv == Status::OK && k.size() == 1 && k[0] == x.keys[x.at] && v == k, "each handle reads where it stands");
}
bool in_use(ScanHandle h) {
    for (int i = 0; i < used; i++) { if (c[i].open && c[i].h == h) { return true; } }
    return false;
}
// what is no open handle of this session is refused
void bad() {
    std::string v;
    std::size_t n{};
    auto what = sx_choose(3, "what");
    ScanHandle h = nullptr;
    if (what == 1) { h = foreign; }
    if (what == 2) {
        // one closed before
        for (int i = 0; i < used; i++) { if (!c[i].open) { h = c[i].h; } }
        if (h == nullptr || in_use(h)) { sx_end(); }
    }
    for (int call = 0; call < (what == 2 ? 1 : 5); call++) {
        Status rc{};
        switch (call) {
            case 0: rc = close_scan(t, h); break;
            case 1: rc = next(t, h); break;
            case 2: rc = read_key_from_scan(t, h, v); break;
            case 3: rc = read_value_from_scan(t, h, v); break;
            default: rc = scannable_total_index_size(t, h, n); break;
        }
        sx_assert(rc == Status::WARN_INVALID_HANDLE, "what is no handle in use is refused as invalid");
    }
    sx_witness(1);
}
void begin_kind(tt k) {
    if (k == tt::SHORT) { begin_short(t); }
    else if (k == tt::LONG) { begin_long(t, {}); }
    else { begin_ro(t); }
}
} // namespace

extern "C" void h_handles() {
    open_db();
    s = make_storage("s");
    u = make_storage("u");
    t = open_session();
    o = open_session();
    for (auto const* k : {"a", "b", "c"}) { put1(t, s, k, k); }
    for (auto const* k : {"x", "y"}) { put1(t, u, k, k); }
    for (int i = 0; i < 3; i++) { sx_tick(); }
    // another session with a scan of its own
    begin_short(o);
    sx_assert(open_scan(o, s, "", scan_endpoint::INF, "", scan_endpoint::INF, foreign) == Status::OK, "scan");
    auto kind = static_cast<tt>(sx_choose(3, "kind"));
    begin_kind(kind);
    open_one(true);
    const int steps = SX_TIER != 0 ? 5 : 4;
    bool again = false;
    for (int i = 0; i < steps; i++) {
        switch (sx_choose(6, "step")) {
            case 0: open_one(); break;
            case 1: step(pick()); break;
            case 2: read(pick()); break;
            case 3: {
                cursor& x = pick();
                sx_assert(close_scan(t, x.h) == Status::OK, "an open scan is closed");
                x.open = false;
                sx_witness(0);
                break;
            }
            case 4: bad(); break;
            default: {
                if (again) { sx_end(); }
                again = true;
                if (sx_choose(2, "abort") != 0) { sx_assert(abort(t) == Status::OK, "abort"); } else { must_commit(t); }
                for (auto& x : c) { x.open = false; }
                begin_kind(static_cast<tt>(sx_choose(SX_TIER != 0 ? 3 : 1, "next kind")));
                // handles of the one before are gone
                for (int j = 0; j < used; j++) { sx_assert(close_scan(t, c[j].h) == Status::WARN_INVALID_HANDLE, "a handle ends with its transaction"); }
                used = 0;
                open_one(true);
                sx_witness(2);
                break;
            }
        }
    }
    for (int i = 0; i < used; i++) { if (c[i].open) { read(c[i]); } }
    must_commit(t);
    // the other session was not touched
    std::string k;
    sx_assert(read_key_from_scan(o, foreign, k) == Status::OK && k == "a", "the handle of another session stands where it stood");
    sx_assert(next(o, foreign) == Status::OK && read_key_from_scan(o, foreign, k) == Status::OK && k == "b", "and advances");
    sx_assert(close_scan(o, foreign) == Status::OK, "an open scan is closed");
    must_commit(o);
    no_log_errors();
    sx_witness(3);
}
