// P20: epochs advance one by one, commits fall into them, and the snapshot boundary only advances.
#include "hist.h"
using namespace hist;

namespace {
tx xs[5]; // two long ones, a short one, two readers
bool begun[5];
int seen[5][NK];
bool active[5];
bool after; // the second reader began when the first had read

void start(int i) {
    begun[i] = true;
    switch (i) {
        case 0: begin_long(xs[0].t, {sts[0]}, false); break;
        case 1: begin_long(xs[1].t, {sts[1]}, false); break;
        default: begin_ro(xs[i].t, false); break;
    }
}
// a reader looks at everything again
void look(int i) {
    if (!begun[i] || xs[i].st != RUN) { return; }
    bool first = !active[i];
    for (int j = 0; j < nkeys; j++) {
        int got = 0;
        if (first) {
            if (run(xs[i], RD, j) == Status::WARN_PREMATURE) { sx_assert(j == 0, "a snapshot is there for all keys at once"); xs[i].n = 0; return; }
            op const& o = xs[i].o[j];
            sx_assert(o.rc == Status::OK, "every key is there");
            seen[i][j] = o.got;
            active[i] = true;
        } else {
            std::string b;
            sx_assert(search_key(xs[i].t, sts[keys[j].st], keys[j].k, b) == Status::OK, "every key is there");
            got = b[0] - '0';
            sx_assert(got == seen[i][j], "nothing that is committed later belongs to a snapshot taken");
        }
    }
}
void setup() {
    open_db();
    for (int i = 0; i < 3; i++) { char n[2] = {static_cast<char>('s' + i), 0}; sts[i] = make_storage(n); }
    nkeys = 3;
    for (int i = 0; i < 3; i++) { keys[i] = {i, "k"}; }
    for (int i = 0; i < 5; i++) {
        xs[i].t = open_session();
        xs[i].id = i < 3 ? i : 0;
        xs[i].kind = i < 2 ? tt::LONG : i == 2 ? tt::SHORT : tt::READ_ONLY;
    }
}
} // namespace

namespace {
int look_at[2]; // what the long ones read
// the calls left of two long ones, the short one, the readers, and epochs
void history(int* left, bool early) {
    for (;;) {
        int c[6], n = 0;
        for (int i = 0; i < 6; i++) {
            if (left[i] == 0) { continue; }
            if (i == 4 && left[3] != 0) { continue; } // the second reader comes second
            c[n++] = i;
        }
        if (n == 0) { break; }
        int i = c[sx_choose(static_cast<std::uint64_t>(n), "step")];
        left[i]--;
        if (i == 5) { sx_tick(); }
        else if (i == 2) {
            begin_short(xs[2].t);
            run(xs[2], RD, 0);
            run(xs[2], UPS, 2);
            if (xs[2].st == RUN) { end(xs[2]); }
        }
        else if (!begun[i]) {
            if (i == 4) { after = active[3]; }
            start(i);
        }
        else {
            if (xs[i].n == 0) {
                Status rc = run(xs[i], RD, look_at[i]);
                if (rc == Status::WARN_PREMATURE) { sx_tick(); xs[i].n = 0; run(xs[i], RD, look_at[i]); }
            }
            if (!early || left[i] == 0) {
                if (xs[i].st == RUN) { run(xs[i], UPS, i); }
                if (xs[i].st == RUN) { end_cb(xs[i]); }
            }
        }
        look(3);
        look(4);
    }
    settle(xs, 3);
    for (int k = 0; k < 3; k++) { sx_tick(); look(3); look(4); }
}
} // namespace

// long transactions that overtake each other, with readers beginning anywhere
extern "C" void h_boundary() {
    setup();
    Token r = open_session();
    fill(r, 7);
    sx_tick();
    int left[6] = {2, 2, 1, 1, 1, SX_TIER != 0 ? 3 : 2};
    for (int i = 0; i < 2; i++) { look_at[i] = SX_TIER != 0 ? static_cast<int>(sx_choose(3, "reads")) : sx_choose(2, "reads") != 0 ? 2 : 1 - i; }
    history(left, false);
    for (int i = 3; i < 5; i++) {
        sx_assert(active[i], "a reader gets its snapshot");
        must_commit(xs[i].t, "a reader commits");
        xs[i].st = COM;
    }
    for (int j = 0; j < nkeys; j++) { sx_assert(!after || seen[4][j] >= seen[3][j], "who begins after another reader has read sees nothing older"); }
    check(xs, 5, r);
    if (after && seen[4][0] != seen[3][0]) { sx_witness(1); }
    if (xs[0].st == COM && xs[1].st == COM) { sx_witness(2); }
    no_log_errors();
    sx_witness(0);
}
// reading early, so that one is ordered before another that commits first
extern "C" void h_overtake() {
    setup();
    Token r = open_session();
    fill(r, 7);
    sx_tick();
    int left[6] = {3, 3, 0, 1, 0, SX_TIER != 0 ? 4 : 3};
    look_at[0] = sx_choose(2, "reads") != 0 ? 2 : 1;
    look_at[1] = sx_choose(2, "reads") != 0 ? 2 : 0;
    history(left, true);
    sx_assert(active[3], "a reader gets its snapshot");
    must_commit(xs[3].t, "a reader commits");
    xs[3].st = COM;
    xs[2].st = xs[4].st = ABO;
    check(xs, 4, r);
    if (xs[0].st == COM && xs[1].st == COM) { sx_witness(1); }
    no_log_errors();
    sx_witness(0);
}

#ifdef PWAL
namespace {
durability_marker_type last;
void one(Token t, tt kind, Storage s, bool reads, std::uint64_t slack) {
    durability_marker_type from = sx_log_epoch();
    if (kind == tt::SHORT) { begin_short(t); }
    else if (kind == tt::LONG) { begin_long(t, {s}); }
    else { begin_ro(t); }
    if (slack == 0 && sx_choose(2, "tick") != 0) { sx_tick(); }
    std::string b;
    Status rc = Status::OK;
    if (reads) { rc = search_key(t, s, "k", b); sx_assert(rc == Status::OK || rc == Status::WARN_CONCURRENT_UPDATE, "reading"); }
    if (kind != tt::READ_ONLY) { rc = upsert(t, s, "k", "1"); sx_assert(rc == Status::OK, "writing"); }
    if (slack == 0 && sx_choose(2, "tick") != 0) { sx_tick(); }
    bool done = false, ok = false;
    durability_marker_type dm{};
    bool now = commit(t, [&](Status st, reason_code, durability_marker_type d) { done = true; ok = st == Status::OK; dm = d; });
    sx_assert(now && done, "decided at once");
    durability_marker_type to = sx_log_epoch();
    if (!ok) { return; }
    sx_note("from", from);
    sx_note("dm", dm);
    sx_note("to", to);
    sx_assert(dm <= to + slack, "a commit belongs to an epoch that has begun");
    if (kind != tt::READ_ONLY) {
        sx_assert(dm >= from, "a commit belongs to an epoch since its begin");
        sx_witness(1);
    }
}
Token t0, t1;
Storage st;
void cl0(void*) { one(t0, tt::SHORT, st, true, 1); }
void cl1(void*) { one(t1, tt::SHORT, st, false, 1); }
} // namespace

// every kind of transaction, one after another, with epochs passing in between
extern "C" void h_epochs() {
    open_db();
    st = make_storage();
    t0 = open_session();
    put1(t0, st, "k", "0");
    sx_tick();
    sx_log_epoch_jumps = 0;
    last = 0;
    for (int i = 0; i < (SX_TIER != 0 ? 4 : 3); i++) {
        auto kind = static_cast<tt>(sx_choose(3, "kind"));
        one(t0, kind, st, sx_choose(2, "reads") != 0, 0);
        auto e = sx_log_epoch();
        sx_assert(e >= last, "epochs never decrease");
        last = e;
        sx_tick();
        sx_assert(sx_log_epoch() == e + 1, "epochs advance while nothing holds them");
    }
    sx_assert(sx_log_epoch_jumps == 0, "epochs advance one by one");
    no_log_errors();
    sx_witness(0);
}
// two sessions and the thread that counts the epochs
extern "C" void h_epochs_race() {
    open_db();
    st = make_storage();
    t0 = open_session();
    t1 = open_session();
    put1(t0, st, "k", "0");
    sx_tick();
    sx_log_epoch_jumps = 0;
    sx_awake = 1U << sx_choose(sx_bg_count(), "awake");
    sx_client(cl0, nullptr);
    bool second = sx_choose(2, "second") != 0;
    if (second) { sx_client(cl1, nullptr); }
    sx_run_clients((SX_TIER != 0 ? 3 : 2) - (second ? 1 : 0), true);
    sx_assert(sx_log_epoch_jumps == 0, "epochs advance one by one");
    no_log_errors();
    sx_witness(0);
}
#endif
