// P11: a long transaction whose commit waits is decided when, and not before, what it waits for has ended.
// P12: the commit callback tells the real outcome, once.
#include "hist.h"
#include "shirakami/result_info.h"
using namespace hist;

namespace {
tx x[4];
Token reader;
unsigned wp[4], area[4], looked[4], wrote[4];
void setup(int n, unsigned resolvers = 1) {
    auto o = db_options();
    o.set_waiting_resolver_threads(resolvers);
    sx_assert(init(o) == Status::OK, "init");
    sx_tick();
    sx_tick();
    sts[0] = make_storage("s");
    sts[1] = make_storage("t");
    nkeys = 2;
    keys[0] = {0, "a"};
    keys[1] = {1, "b"};
    reader = open_session();
    for (int i = 0; i < n; i++) { x[i].t = open_session(); x[i].id = i; x[i].kind = tt::LONG; x[i].st = RUN; x[i].n = 0; looked[i] = 0; wrote[i] = 0; area[i] = 0; }
    fill(reader, 3);
    sx_tick();
}
std::vector<Storage> set_of(unsigned w) {
    std::vector<Storage> v;
    if ((w & 1U) != 0) { v.push_back(sts[0]); }
    if ((w & 2U) != 0) { v.push_back(sts[1]); }
    return v;
}
// area: storages it declares to read; 0: undeclared
void begin(int i) {
    transaction_options::read_area ra;
    if (area[i] != 0) { ra = transaction_options::read_area({sts[area[i] - 1]}, {}); }
    sx_assert(tx_begin({x[i].t, tt::LONG, set_of(wp[i]), ra}) == Status::OK, "begin");
}
void body(int i, unsigned look, unsigned write, bool by_scan) {
    for (unsigned s = 0; s < 2; s++) {
        if ((look >> s & 1U) == 0) { continue; }
        Status rc = by_scan ? run(x[i], SCAN, static_cast<int>(s)) : run(x[i], RD, static_cast<int>(s));
        sx_assert(rc == Status::OK, "reading");
        looked[i] |= 1U << s;
    }
    for (unsigned s = 0; s < 2; s++) {
        if ((write >> s & 1U) == 0) { continue; }
        sx_assert(run(x[i], UPS, static_cast<int>(s)) == Status::OK, "writing");
        wrote[i] |= 1U << s;
    }
}
bool ended(int i) { return x[i].st == COM || x[i].st == ABO; }
unsigned may_read(int j) { return area[j] == 0 ? 3U : 1U << (area[j] - 1); }
// an earlier one has not ended that reserved what i read, or may read what i writes
bool may_stay(int i) {
    bool r = false;
    for (int j = 0; j < i; j++) { r = r || (!ended(j) && ((wp[j] & looked[i]) != 0 || (may_read(j) & wp[i]) != 0)); }
    return r;
}
// what has to hold whatever the order in which the transactions end
void rules(int n) {
    for (int i = 0; i < n; i++) {
        if (x[i].st == WAIT) {
            bool older = false;
            for (int j = 0; j < i; j++) { older = older || x[j].st == RUN; }
            sx_assert(older, "a transaction waits only while an earlier one is running");
        }
    }
}
void request(int i, bool give_up) {
    if (give_up) { sx_assert(abort(x[i].t) == Status::OK, "abort"); x[i].st = ABO; return; }
    bool must_wait = false, may_wait = false;
    for (int j = 0; j < i; j++) {
        // j may still write what i read, and still read what i wrote
        if (x[j].st == RUN && (wp[j] & looked[i]) != 0 && (may_read(j) & wrote[i]) != 0) { must_wait = true; }
        if (!ended(j) && (wp[j] & looked[i]) != 0) { may_wait = true; }
    }
    // earlier ones that ended after i read may have left traces of a wait
    for (int j = 0; j < i; j++) { if ((wp[j] & looked[i]) != 0) { may_wait = true; } }
    end_cb(x[i]);
    if (must_wait) { sx_assert(x[i].st != COM, "not decided while one that may both write what it read and read what it wrote is running"); sx_witness(1); }
    if (!may_wait) { sx_assert(x[i].st != WAIT, "a transaction that read nothing reserved by an earlier one is decided at once"); }
    if (x[i].st == WAIT) { sx_witness(2); }
}
} // namespace

extern "C" void h_wait() {
    setup(3);
    unsigned lk[3], wr[3];
    for (int i = 0; i < 3; i++) {
        lk[i] = static_cast<unsigned>(i == 0 ? 1 + sx_choose(2, "look") : sx_choose(SX_TIER != 0 ? 4 : 3, "look"));
        wr[i] = static_cast<unsigned>(i == 0 ? 1 + sx_choose(2, "write") : sx_choose(3, "write"));
        // what is reserved may exceed what is written
        wp[i] = wr[i] | (i < 2 && sx_choose(2, "all") != 0 ? 3U : 0U);
        if (i == 0) { area[i] = sx_choose(2, "area") != 0 ? lk[i] : 0U; }
    }
    bool by_scan = SX_TIER != 0 && sx_choose(2, "scan") != 0;
    auto same = sx_choose(2, "same epoch");
    for (int i = 0; i < 3; i++) {
        begin(i);
        if (same == 0 || i == 2) { sx_tick(); }
    }
    sx_tick();
    for (int i = 2; i >= 0; i--) { body(i, lk[i], wr[i], by_scan); }
    static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    auto p = sx_choose(6, "order");
    for (int k = 0; k < 3; k++) {
        int i = order[p][k];
        if (x[i].st != RUN) { continue; }
        request(i, sx_choose(2, "abort") != 0);
        settle(x, 3, 3);
        rules(3);
    }
    check(x, 3, reader);
    no_log_errors();
    sx_witness(0);
}

// two wait, each for one or both of two others
extern "C" void h_wait_two() {
    setup(4);
    wp[0] = 1;
    wp[1] = 2;
    unsigned lk[4] = {}, wr[4] = {};
    for (int i = 0; i < 2; i++) { area[i] = static_cast<unsigned>(sx_choose(2, "area") != 0 ? i + 1 : 0); }
    for (int i = 2; i < 4; i++) {
        lk[i] = 1 + static_cast<unsigned>(sx_choose(3, "look"));
        wp[i] = wr[i] = static_cast<unsigned>(sx_choose(3, "write"));
    }
    auto same = sx_choose(2, "same epoch");
    for (int i = 0; i < 4; i++) {
        begin(i);
        if (same == 0 || i == 3) { sx_tick(); }
    }
    for (int i = 3; i >= 0; i--) { body(i, lk[i], wr[i], false); }
    bool swap = sx_choose(2, "order") != 0;
    for (int k = 0; k < 2; k++) { request(swap ? 3 - k : 2 + k, false); }
    sx_tick();
    int first = static_cast<int>(sx_choose(2, "first"));
    for (int k = 0; k < 2; k++) {
        int i = k == 0 ? first : 1 - first;
        request(i, sx_choose(2, "abort") != 0);
        for (int j = 0; j < 4; j++) { sx_tick(); }
        for (int j = 2; j < 4; j++) {
            if (x[j].st == WAIT) { sx_assert(may_stay(j), "decided as soon as everything it waits for has ended"); sx_witness(3); }
        }
    }
    rules(4);
    check(x, 4, reader);
    no_log_errors();
    sx_witness(0);
}

// requests, the end of what they wait for and the resolver at the same time
namespace {
unsigned how0;
void c_end(void*) {
    if (how0 == 0) { end_cb(x[0]); }
    else { sx_assert(abort(x[0].t) == Status::OK, "abort"); x[0].st = ABO; }
}
void c_until(void*) { while (x[1].st == WAIT || x[2].st == WAIT) { sx_pause(); } }
void c_end_until(void*) { c_end(nullptr); c_until(nullptr); }
void c_wait(void* p) { end_cb(x[reinterpret_cast<std::size_t>(p)]); }
} // namespace
extern "C" void h_wait_race() {
    auto c = sx_choose(4, "case");
    setup(3, c == 3 ? 2 : 1);
    how0 = static_cast<unsigned>(sx_choose(2, "end"));
    wp[0] = 1; wp[1] = 2; wp[2] = c == 1 ? 1 : 2;
    for (int i = 0; i < 3; i++) { begin(i); sx_tick(); }
    sx_tick();
    body(2, c == 1 ? 2 : 1, wp[2], false);
    body(1, 1, 2, false);
    body(0, 2, how0 == 0 ? 1 : 0, false);
    unsigned n = static_cast<unsigned>(sx_bg_count());
    if (c == 0) {
        // the request comes while the other one ends
        end_cb(x[2]);
        sx_client(c_end, nullptr);
        sx_client(c_wait, reinterpret_cast<void*>(1));
    } else if (c == 1) {
        // a chain
        end_cb(x[1]);
        sx_client(c_end, nullptr);
        sx_client(c_wait, reinterpret_cast<void*>(2));
    } else if (c == 2) {
        end_cb(x[1]);
        end_cb(x[2]);
        sx_client(c_end_until, nullptr);
        sx_awake = 1U << sx_choose(n, "awake");
    } else {
        // two resolvers
        end_cb(x[1]);
        end_cb(x[2]);
        c_end(nullptr);
        auto a = sx_choose(n, "awake"), b = sx_choose(n, "awake");
        sx_assume(a < b);
        sx_awake = 1U << a | 1U << b;
        sx_client(c_until, nullptr);
    }
    sx_run_clients((SX_TIER != 0 ? 3 : 2) - (c == 3 ? 1 : 0), sx_awake != 0, 0);
    for (int i = 0; i < 3; i++) { if (x[i].st == WAIT) { sx_witness(1); } }
    settle(x, 3, 4);
    check(x, 3, reader);
    no_log_errors();
    sx_witness(0);
}
