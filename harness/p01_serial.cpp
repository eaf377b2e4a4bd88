// P01: serializability of short transactions.
#include "hist.h"
using namespace hist;

namespace {
struct what { op_kind k; int key; };
what pick(bool scans) {
    switch (sx_choose(scans ? 11 : 10, "operation")) {
        case 0: return {RD, 0};
        case 1: return {RD, 1};
        case 2: return {INS, 0};
        case 3: return {INS, 1};
        case 4: return {UPD, 0};
        case 5: return {UPD, 1};
        case 6: return {UPS, 0};
        case 7: return {UPS, 1};
        case 8: return {DEL, 0};
        case 9: return {DEL, 1};
        default: return {SCAN, 0};
    }
}
Token reader;
void setup(tx* x, int n) {
    open_db();
    sts[0] = make_storage();
    nkeys = 2;
    keys[0] = {0, "a"};
    keys[1] = {0, "b"};
    for (int i = 0; i < n; i++) { x[i].t = open_session(); x[i].id = i; x[i].st = RUN; x[i].n = 0; }
    reader = open_session(); // no older than the others, so that its writes are not numbered higher
}
} // namespace

// two transactions interleaved between calls
extern "C" void h_stx_calls() {
    tx x[2];
    setup(x, 2);
    fill(reader, 1, sx_choose(2, "b deleted before") != 0 ? 2 : 0);
    const int ops = SX_TIER != 0 ? 3 : 2;
    for (auto& y : x) { begin_short(y.t); }
    bool first = true;
    while (x[0].st == RUN || x[1].st == RUN) {
        int i = x[0].st != RUN ? 1 : x[1].st != RUN ? 0 : first ? 0 : static_cast<int>(sx_choose(2, "turn"));
        first = false;
        if (x[i].n == ops) { end(x[i]); continue; }
        auto w = pick(true);
        run(x[i], w.k, w.key);
    }
    if (x[0].st == COM && x[1].st == COM) { sx_witness(1); }
    if (x[0].st == ABO || x[1].st == ABO) { sx_witness(2); }
    check(x, 2, reader);
    no_log_errors();
    sx_witness(0);
}

// two transactions of two operations each, preempted inside the calls
namespace {
tx rx[2];
what prog[2][2];
void client(void* p) {
    auto& x = rx[reinterpret_cast<std::size_t>(p)];
    auto* w = prog[reinterpret_cast<std::size_t>(p)];
    for (int i = 0; i < 2 && x.st == RUN; i++) { run(x, w[i].k, w[i].key); }
    if (x.st == RUN) { end(x); }
}
void race(unsigned preempt) {
    for (auto& y : rx) { begin_short(y.t); }
    for (std::size_t i = 0; i < 2; i++) { sx_client(client, reinterpret_cast<void*>(i)); }
    sx_run_clients(preempt);
    if (rx[0].st == COM && rx[1].st == COM) { sx_witness(1); }
    if (rx[0].st == ABO || rx[1].st == ABO) { sx_witness(2); }
    check(rx, 2, reader);
    no_log_errors();
    sx_witness(0);
}
} // namespace
// pairs in which every read can be overwritten by the other
extern "C" void h_stx_race() {
    setup(rx, 2);
    fill(reader, 1);
    static const what reads[] = {{RD, 0}, {RD, 1}, {SCAN, 0}};
    static const what writes[] = {{UPD, 0}, {DEL, 0}, {UPS, 0}, {INS, 1}, {UPS, 1}};
    std::uint64_t n[2];
    for (int i = 0; i < 2; i++) {
        auto r = sx_choose(3, "read"), w = sx_choose(5, "write");
        n[i] = r * 5 + w;
        prog[i][0] = reads[r];
        prog[i][1] = writes[w];
    }
    if (n[0] > n[1]) { sx_end(); } // the same pair the other way round
    race(SX_TIER != 0 ? 2 : 1);
}
// selected pairs with more preemptions: write skew, half-seen writes, lost update, insert against scan, two inserts, delete against update
extern "C" void h_stx_race2() {
    setup(rx, 2);
    fill(reader, 1);
    static const what progs[][2][2] = {
        {{{RD, 0}, {UPS, 1}}, {{RD, 1}, {UPS, 0}}},
        {{{UPS, 0}, {INS, 1}}, {{RD, 0}, {RD, 1}}},
        {{{RD, 0}, {UPD, 0}}, {{RD, 0}, {UPD, 0}}},
        {{{SCAN, 0}, {UPD, 0}}, {{RD, 0}, {INS, 1}}},
        {{{RD, 1}, {INS, 1}}, {{RD, 1}, {UPS, 1}}},
        {{{DEL, 0}, {RD, 1}}, {{UPS, 1}, {RD, 0}}},
    };
    auto k = sx_choose(sizeof(progs) / sizeof(progs[0]), "pair");
    for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { prog[i][j] = progs[k][i][j]; } }
    race(SX_TIER != 0 ? 3 : 2);
}

// both keys were deleted before; the collector removes their records at any moment
extern "C" void h_stx_gc() {
    tx x[2];
    setup(x, 2);
    fill(reader, 0, 3);
    // epochs pass, but the collector is late
    for (auto n = sx_choose(3, "epochs before"); n > 0; n--) { sx_bg_step(0); }
    static const what reads[] = {{RD, 0}, {RD, 1}, {SCAN, 0}};
    static const what writes[] = {{INS, 0}, {INS, 1}, {UPS, 0}, {UPS, 1}};
    what pg[2][2];
    std::uint64_t n[2];
    for (int i = 0; i < 2; i++) {
        auto r = sx_choose(3, "read"), w = sx_choose(4, "write");
        n[i] = r * 4 + w;
        pg[i][0] = reads[r];
        pg[i][1] = writes[w];
    }
    if (SX_TIER == 0 && n[0] > n[1]) { sx_end(); } // the same pair the other way round
    bool begun[2] = {false, false};
    int ticks = SX_TIER == 0 ? 1 : 2;
    while (x[0].st == RUN || x[1].st == RUN) {
        int i = x[0].st != RUN ? 1 : x[1].st != RUN ? 0 : static_cast<int>(sx_choose(2, "turn"));
        if (!begun[i]) { begin_short(x[i].t); begun[i] = true; run(x[i], pg[i][0].k, pg[i][0].key); }
        else if (x[i].n == 1) { run(x[i], pg[i][1].k, pg[i][1].key); }
        else { end(x[i]); }
        if (ticks > 0 && sx_choose(2, "ticks") != 0) { ticks--; sx_tick(); sx_tick(); sx_tick(); }
    }
    if (x[0].st == COM && x[1].st == COM) { sx_witness(1); }
    if (x[0].st == ABO || x[1].st == ABO) { sx_witness(2); }
    check(x, 2, reader);
    no_log_errors();
    sx_witness(0);
}
