// P02: serializability of short, long and read-only transactions together.
#include "hist.h"
using namespace hist;

namespace {
struct what { op_kind k; int key; };
tx x[3];
Token reader;
bool begun[3];
// two storages with one key each; the second key may be missing
void setup(int n, unsigned present, unsigned gone = 0, bool four = false) {
    open_db();
    sts[0] = make_storage("s");
    sts[1] = make_storage("t");
    nkeys = 2;
    keys[0] = {0, "a"};
    keys[1] = {1, "b"};
    if (four) {
        nkeys = 4;
        keys[1] = {0, "b"};
        keys[2] = {1, "c"};
        keys[3] = {1, "d"};
    }
    reader = open_session();
    for (int i = 0; i < n; i++) { x[i].t = open_session(); x[i].id = i; x[i].st = RUN; x[i].n = 0; begun[i] = false; }
    fill(reader, present, gone);
    sx_tick();
}
std::vector<Storage> reserve(std::uint64_t w) {
    std::vector<Storage> v;
    if ((w & 1U) != 0) { v.push_back(sts[0]); }
    if ((w & 2U) != 0) { v.push_back(sts[1]); }
    if ((w & 4U) != 0) { v.push_back(sts[2]); }
    return v;
}
void begin(int i, std::uint64_t wp) {
    begun[i] = true;
    switch (x[i].kind) {
        case tt::SHORT: begin_short(x[i].t); break;
        case tt::LONG: begin_long(x[i].t, reserve(wp)); break;
        default: begin_ro(x[i].t); break;
    }
}
bool open_tx(int i) { return x[i].st == RUN; }
void done(int n) {
    settle(x, n);
    int c = 0;
    for (int i = 0; i < n; i++) {
        sx_assert(x[i].st != WAIT, "a waiting transaction is decided once all others have ended");
        c += x[i].st == COM ? 1 : 0;
    }
    if (c == n) { sx_witness(1); }
    if (c < n) { sx_witness(2); }
    check(x, n, reader);
    no_log_errors();
    sx_witness(0);
}
what pick_rw(std::uint64_t wp) {
    // reads of both, and writes the reservation allows
    static const what rd[] = {{RD, 0}, {RD, 1}};
    static const what w0[] = {{RD, 0}, {RD, 1}, {UPS, 0}, {DEL, 0}};
    static const what w1[] = {{RD, 0}, {RD, 1}, {UPS, 1}, {DEL, 1}};
    static const what w2[] = {{RD, 0}, {RD, 1}, {UPS, 0}, {UPS, 1}};
    switch (wp) {
        case 0: return rd[sx_choose(2, "operation")];
        case 1: return w0[sx_choose(4, "operation")];
        case 2: return w1[sx_choose(4, "operation")];
        default: return w2[sx_choose(4, "operation")];
    }
}
} // namespace

// two long transactions, the second beginning at any point of the first
extern "C" void h_ltx_pair() {
    setup(2, 1);
    x[0].kind = x[1].kind = tt::LONG;
    std::uint64_t wp[2];
    for (auto& w : wp) { w = sx_choose(4, "reservation"); }
    begin(0, wp[0]);
    const int ops = 2;
    while (open_tx(0) || open_tx(1)) {
        int i = !open_tx(0) ? 1 : !open_tx(1) ? 0 : static_cast<int>(sx_choose(2, "turn"));
        if (!begun[i]) { begin(i, wp[i]); continue; }
        if (x[i].n == ops) { end_cb(x[i]); continue; }
        auto w = pick_rw(wp[i]);
        run(x[i], w.k, w.key);
    }
    done(2);
}
// a long transaction and a short one
extern "C" void h_ltx_stx() {
    setup(2, 1);
    x[0].kind = tt::LONG;
    std::uint64_t wp = sx_choose(4, "reservation");
    bool tick = true;
    const int ops = 2;
    while (open_tx(0) || open_tx(1)) {
        int i = !open_tx(0) ? 1 : !open_tx(1) ? 0 : static_cast<int>(sx_choose(tick && begun[1] ? 3 : 2, "turn"));
        if (i == 2) { sx_tick(); tick = false; continue; }
        if (!begun[i]) { begin(i, wp); continue; }
        if (x[i].n == ops) { end_cb(x[i]); continue; }
        auto w = pick_rw(i == 0 ? wp : 3);
        run(x[i], w.k, w.key);
    }
    done(2);
}
namespace {
// every order of the begins, bodies and commits of three transactions
void three(what const* r, what const* w, int together = 1) {
    auto wp = [w](int i) { return 1U << static_cast<unsigned>(keys[w[i].key].st); };
    // the first ones begin in the same epoch
    for (int i = 0; i < together - 1; i++) { begun[i] = true; begin_long(x[i].t, reserve(wp(i)), false); }
    begin(together - 1, wp(together - 1));
    while (open_tx(0) || open_tx(1) || open_tx(2)) {
        int c[3], n = 0;
        for (int i = 0; i < 3; i++) { if (open_tx(i)) { c[n++] = i; } }
        int i = c[n == 1 ? 0 : sx_choose(static_cast<std::uint64_t>(n), "turn")];
        if (!begun[i]) { begin(i, wp(i)); continue; }
        if (x[i].n == 2) { end_cb(x[i]); continue; }
        if (x[i].n == 0) {
            run(x[i], r[i].k, r[i].key);
            if (SX_TIER != 0) { continue; }
        }
        if (open_tx(i)) { run(x[i], w[i].k, w[i].key); }
    }
    done(3);
}
} // namespace
// three transactions: two long ones and a short, long or read-only one, each reading one key and writing one
extern "C" void h_three() {
    setup(3, sx_choose(2, "b present") != 0 ? 3 : 1);
    x[0].kind = x[1].kind = tt::LONG;
    what r[3], w[3];
    for (int i = 0; i < 2; i++) {
        r[i] = {RD, static_cast<int>(sx_choose(2, "read"))};
        w[i] = {UPS, static_cast<int>(sx_choose(2, "write"))};
    }
    auto k = sx_choose(3, "third");
    x[2].kind = k == 0 ? tt::SHORT : k == 1 ? tt::LONG : tt::READ_ONLY;
    r[2] = {RD, k == 2 ? 0 : static_cast<int>(sx_choose(2, "read"))};
    w[2] = k == 2 ? what{RD, 1} : what{UPS, static_cast<int>(sx_choose(2, "write"))};
    three(r, w);
}
// as above with scans, inserts and deletes
extern "C" void h_three_scan() {
    setup(3, 1 | 4, 0, true);
    x[0].kind = x[1].kind = tt::LONG;
    auto k = sx_choose(3, "third");
    x[2].kind = k == 0 ? tt::SHORT : k == 1 ? tt::LONG : tt::READ_ONLY;
    what r[3], w[3];
    for (int i = 0; i < 3; i++) {
        r[i] = {SCAN, i == 0 ? 0 : static_cast<int>(sx_choose(2, "scan"))};
        if (x[i].kind == tt::READ_ONLY) { w[i] = {SCAN, 1 - r[i].key}; continue; }
        auto j = static_cast<int>(SX_TIER == 0 && i == 0 ? 2 + sx_choose(2, "write") : sx_choose(4, "write"));
        w[i] = {j % 2 == 0 ? DEL : INS, j};
    }
    three(r, w);
}

// long transactions beginning in the same epoch, reading or scanning one storage and changing one
extern "C" void h_same_epoch() {
    setup(3, 1 | 4, 0, true);
    what r[3], w[3];
    for (int i = 0; i < 3; i++) {
        x[i].kind = tt::LONG;
        auto q = static_cast<int>(i == 0 ? sx_choose(2, "look") : sx_choose(4, "look"));
        r[i] = q % 2 == 0 ? what{SCAN, q / 2} : what{RD, q / 2 * 2};
        auto j = static_cast<int>(SX_TIER == 0 && i == 0 ? 2 + sx_choose(2, "write") : sx_choose(4, "write"));
        w[i] = {j % 2 == 0 ? DEL : INS, j};
    }
    three(r, w, SX_TIER != 0 ? 2 + static_cast<int>(sx_choose(2, "together")) : 3);
}

// three transactions in a ring: each looks at one of three storages and changes the next, or the one before;
// short ones begin with their first call
extern "C" void h_ring() {
    open_db();
    nkeys = 3;
    static const char* const names[] = {"s", "t", "u"};
    for (int i = 0; i < 3; i++) { sts[i] = make_storage(names[i]); keys[i] = {i, "a"}; }
    reader = open_session();
    auto look = sx_choose(3, "look");
    auto kinds = 1 + sx_choose(7, "kinds");
    int step = 1 + static_cast<int>(sx_choose(2, "direction"));
    for (int i = 0; i < 3; i++) {
        x[i].t = open_session(); x[i].id = i; x[i].st = RUN; x[i].n = 0; begun[i] = false;
        x[i].kind = (kinds >> static_cast<unsigned>(i) & 1U) != 0 ? tt::LONG : tt::SHORT;
    }
    // the first one to do anything is a long one
    sx_assume(x[0].kind == tt::LONG);
    fill(reader, look == 1 ? 0 : 7);
    sx_tick();
    begin(0, 1U << static_cast<unsigned>(step));
    while (open_tx(0) || open_tx(1) || open_tx(2)) {
        int c[3], n = 0;
        for (int i = 0; i < 3; i++) { if (open_tx(i)) { c[n++] = i; } }
        int i = c[n == 1 ? 0 : sx_choose(static_cast<std::uint64_t>(n), "turn")];
        int to = (i + step) % 3;
        if (!begun[i]) { begin(i, 1U << static_cast<unsigned>(to)); if (x[i].kind == tt::LONG) { continue; } }
        if (x[i].n == 2) { end_cb(x[i]); continue; }
        run(x[i], look == 0 ? RD : SCAN, i);
        if (open_tx(i)) { run(x[i], look == 0 ? UPS : look == 1 ? INS : DEL, to); }
    }
    done(3);
}

// a long transaction and another one, preempted inside the calls, from the begin to the commit of both
namespace {
what prog[2][2];
std::uint64_t wps[2];
void go_premature(tx& y, what w) {
    for (int i = 0; i < 5; i++) {
        if (run(y, w.k, w.key) != Status::WARN_PREMATURE) { return; }
        y.n--;
        sx_tick();
    }
    // epochs cannot advance while the other one is held up: give up
    sx_assert(abort(y.t) == Status::OK, "abort");
    y.st = ABO;
}
void race_client(void* p) {
    auto i = reinterpret_cast<std::size_t>(p);
    tx& y = x[i];
    if (y.kind == tt::SHORT) { begin_short(y.t); }
    else { begin_long(y.t, reserve(wps[i]), false); sx_tick(); }
    for (int k = 0; k < 2 && y.st == RUN; k++) { go_premature(y, prog[i][k]); }
    if (y.st == RUN) { end_cb(y); }
}
} // namespace
extern "C" void h_ltx_race() {
    static const struct { what p[2][2]; unsigned wp[2]; bool l1; } cases[] = {
        {{{{RD, 0}, {UPS, 1}}, {{RD, 1}, {UPS, 0}}}, {2, 1}, false},
        {{{{RD, 0}, {UPS, 0}}, {{RD, 0}, {UPS, 0}}}, {1, 1}, false},
        {{{{UPS, 0}, {UPS, 1}}, {{RD, 0}, {RD, 1}}}, {3, 0}, false},
        {{{{SCAN, 0}, {UPS, 1}}, {{RD, 1}, {DEL, 0}}}, {2, 1}, false},
        {{{{RD, 0}, {UPS, 1}}, {{RD, 1}, {UPS, 0}}}, {2, 1}, true},
        {{{{RD, 1}, {UPS, 0}}, {{RD, 0}, {UPS, 0}}}, {1, 1}, true},
        {{{{SCAN, 0}, {INS, 1}}, {{SCAN, 1}, {INS, 0}}}, {2, 1}, true},
        {{{{RD, 0}, {RD, 1}}, {{UPS, 0}, {UPS, 1}}}, {0, 3}, false},
    };
    auto c = sx_choose(sizeof(cases) / sizeof(cases[0]), "case");
    setup(2, c == 6 ? 0 : 3);
    x[0].kind = tt::LONG;
    x[1].kind = cases[c].l1 ? tt::LONG : tt::SHORT;
    for (int i = 0; i < 2; i++) {
        wps[i] = cases[c].wp[i];
        for (int k = 0; k < 2; k++) { prog[i][k] = cases[c].p[i][k]; }
    }
    for (std::size_t i = 0; i < 2; i++) { sx_client(race_client, reinterpret_cast<void*>(i)); }
    sx_run_clients((SX_TIER != 0 ? 2 : 1) + (c == 0 || c == 3 || c == 4 || c == 6 ? 1 : 0));
    done(2);
}
