// P19: the collector changes no result, touches nothing in use, and takes everything nobody needs.
#include "hist.h"
using namespace hist;

namespace {
constexpr int MAXS = 16;
int states[MAXS][NK];
int nstates;
int val;
Token w, g, x;

void setup(int n) {
    open_db();
    sts[0] = make_storage();
    nkeys = n;
    keys[0] = {0, "a"};
    keys[1] = {0, "b"};
    w = open_session();
    g = open_session();
    x = open_session();
    fill(w, 1);
    nstates = 1;
    for (int j = 0; j < nkeys; j++) { states[0][j] = state0[j]; }
}
void write(int key, bool del) {
    begin_short(w);
    char c = code(++val);
    Status rc = del ? delete_record(w, sts[0], keys[key].k) : upsert(w, sts[0], keys[key].k, std::string_view{&c, 1});
    bool was = states[nstates - 1][key] >= 0;
    sx_assert(rc == (del && !was ? Status::WARN_NOT_FOUND : Status::OK), "write in a transaction of its own");
    must_commit(w);
    if (rc != Status::OK) { return; }
    sx_assert(nstates < MAXS, "harness: states");
    for (int j = 0; j < nkeys; j++) { states[nstates][j] = states[nstates - 1][j]; }
    states[nstates++][key] = del ? -1 : val;
}

tt kind;
bool running, ended, fixed;
int first; // newest state when the first read was made
std::uint64_t fits;
void narrow(std::uint64_t m) {
    fits &= m;
    if (kind != tt::SHORT) { sx_assert(fits != 0, "all reads come from one committed state, whatever was collected"); }
}
void read_all() {
    if (!running || ended) { return; }
    int now[NK];
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        Status rc = search_key(g, sts[0], keys[j].k, b);
        if (rc == Status::WARN_PREMATURE && kind != tt::SHORT && !fixed) { return; }
        sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "reading is not refused");
        now[j] = rc == Status::OK ? (b.size() == 1 ? b[0] - '0' : -2) : -1;
        if (!fixed) {
            fixed = true;
            fits = 0;
            for (int i = 0; i < nstates; i++) { fits |= 1ULL << static_cast<unsigned>(i); }
        }
        std::uint64_t m = 0;
        for (int i = 0; i < nstates; i++) { if (states[i][j] == now[j]) { m |= 1ULL << static_cast<unsigned>(i); } }
        narrow(m);
        if (kind == tt::SHORT) { sx_assert(now[j] == states[nstates - 1][j], "the newest committed contents are read"); }
    }
    op o;
    Status rc = scan_all(g, 0, o, false);
    sx_assert(rc == Status::OK && !o.part, "scanning is not refused");
    int n = 0;
    for (int j = 0; j < nkeys; j++) {
        if (now[j] < 0) { continue; }
        sx_assert(n < o.nsc && o.sc_k[n] == j && o.sc_v[n] == now[j], "a scan tells the same");
        n++;
    }
    sx_assert(n == o.nsc, "a scan tells the same");
}
} // namespace

// every background thread takes its steps at any moments
extern "C" void h_gc() {
    setup(SX_TIER != 0 ? 2 : 1);
    kind = static_cast<tt>(sx_choose(3, "kind"));
    const int steps = SX_TIER != 0 ? 7 : 5;
    auto nbg = sx_bg_count();
    for (int s = 0; s < steps; s++) {
        auto c = sx_choose(nbg + (running ? 3 : 4) + (nkeys - 1) * 2, "step");
        if (c < nbg) { sx_bg_step(c); continue; }
        c -= nbg;
        if (c == 0) { write(0, false); }
        else if (c == 1) { write(0, true); }
        else if (nkeys > 1 && c == 2) { write(1, false); }
        else if (nkeys > 1 && c == 3) { write(1, true); }
        else {
            if (!running) {
                running = true;
                first = nstates;
                if (kind == tt::SHORT) { begin_short(g); }
                else if (kind == tt::LONG) { begin_long(g, {}, false); }
                else { begin_ro(g, false); }
            } else {
                sx_tick();
            }
            read_all();
        }
    }
    if (!running) { sx_end(); }
    read_all();
    if (nstates > first) { sx_witness(0); }
    if (kind != tt::SHORT && !fixed) { sx_tick(); sx_tick(); read_all(); }
    sx_assert(fixed, "reading is possible after two epochs");
    Status rc = commit(g);
    sx_assert(rc == Status::OK || (kind == tt::SHORT && rc == Status::ERR_CC), "at most a short transaction is asked to try again");
    if (kind == tt::SHORT && rc == Status::OK) { sx_assert(fits == 0 || (fits >> static_cast<unsigned>(nstates - 1) & 1U) != 0 || nstates == first, "a commit tells that what was read still holds"); }
    // the next one sees what is there
    sx_tick();
    fixed = false;
    kind = tt::SHORT;
    begin_short(g);
    read_all();
    must_commit(g);
    no_log_errors();
    sx_witness(1);
}

// a reader of a past kept by an older transaction that ends meanwhile
extern "C" void h_gc_past() {
    setup(1);
    kind = sx_choose(2, "kind") != 0 ? tt::LONG : tt::READ_ONLY;
    begin_long(x, {}, sx_choose(2, "wait") != 0);
    bool older = true;
    const int steps = SX_TIER != 0 ? 8 : 7;
    for (int s = 0; s < steps; s++) {
        auto c = sx_choose(4, "step");
        if (c < 2) {
            write(0, c == 1);
        } else if (c == 2) {
            sx_tick();
        } else if (!running) {
            running = true;
            first = nstates;
            if (kind == tt::LONG) { begin_long(g, {}, false); } else { begin_ro(g, false); }
        } else if (older) {
            older = false;
            Status rc = commit(x);
            if (rc == Status::WARN_PREMATURE) { sx_end(); }
            sx_assert(rc == Status::OK, "nothing refuses it");
        } else { sx_end(); }
        read_all();
    }
    if (older || !fixed) { sx_end(); }
    if (nstates > first) { sx_witness(0); }
    must_commit(g, "nothing refuses it");
    no_log_errors();
    sx_witness(1);
}

// nobody needs the old versions and deleted records any more: they are taken, so the same again needs no more room
extern "C" void h_gc_done() {
    setup(2);
    auto who = sx_choose(4, "who");
    // how much an empty storage takes when everything was used once
    std::size_t empty = 0;
    for (int i = 0; i < 4; i++) {
        if (i == 1) { write(0, true); }
        if (i == 2) { write(0, false); write(0, true); }
        if (who == 1) { begin_short(g); }
        if (who == 2) { begin_long(g, {}); }
        if (who == 3) { begin_ro(g); }
        if (who != 0) {
            std::string b;
            Status rc = search_key(g, sts[0], "a", b);
            sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "reading");
            must_commit(g);
        }
        for (int j = 0; j < 4; j++) { sx_tick(); }
        empty = sx_live;
    }
    const int steps = SX_TIER != 0 ? 5 : 4;
    std::uint64_t c[8];
    for (int s = 0; s < steps; s++) { c[s] = sx_choose(7, "step"); }
    std::size_t n[4];
    for (auto& live : n) {
        val = 0;
        nstates = 1;
        states[0][0] = 0;
        // the same contents with nobody there
        begin_short(w);
        sx_assert(upsert(w, sts[0], "a", "0") == Status::OK, "writing");
        must_commit(w);
        for (int i = 0; i < 4; i++) { sx_tick(); }
        // somebody watches, or not
        if (who == 1) { begin_short(g); }
        if (who == 2) { begin_long(g, {}); }
        if (who == 3) { begin_ro(g); }
        for (int s = 0; s < steps; s++) {
            if (c[s] == 0) { write(0, false); }
            else if (c[s] == 1) { write(0, true); }
            else if (c[s] == 2) { write(1, false); }
            else if (c[s] == 3) { write(1, true); }
            else if (c[s] == 4 || c[s] == 5) {
                // put in and taken away again
                begin_short(w);
                sx_assert(insert(w, sts[0], "c", "1") == Status::OK, "inserting");
                if (c[s] == 4) { sx_assert(delete_record(w, sts[0], "c") == Status::WARN_CANCEL_PREVIOUS_INSERT, "deleting"); must_commit(w); }
                else { sx_assert(abort(w) == Status::OK, "aborting"); }
            }
            else { sx_tick(); }
        }
        if (who != 0) {
            std::string b;
            Status rc = search_key(g, sts[0], "a", b);
            sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "reading");
            sx_assert(commit(g) == Status::OK || who == 1, "ending");
        }
        if (states[nstates - 1][1] >= 0) { write(1, true); }
        for (int i = 0; i < 4; i++) { sx_tick(); }
        live = sx_live;
    }
    sx_note("live", n[0]);
    sx_note("live", n[1]);
    sx_note("live", n[2]);
    sx_note("live", n[3]);
    sx_assert(n[3] <= n[2], "what nobody needs is removed");
    if (n[3] == n[2]) { sx_witness(0); }
    // somebody keeps the last records from being taken, for a while
    if (states[nstates - 1][0] < 0) { write(0, false); }
    if (who == 1) { begin_short(g); }
    if (who == 2) { begin_long(g, {}); }
    if (who == 3) { begin_ro(g); }
    write(0, true);
    sx_tick();
    sx_tick();
    if (who != 0) { must_commit(g, "ending"); }
    for (int i = 0; i < 4; i++) { sx_tick(); }
    sx_note("empty", empty);
    sx_note("live", sx_live);
    sx_assert(sx_live == empty, "deleted records are removed once nobody can read them");
    no_log_errors();
    sx_witness(1);
}

namespace {
tx xs[2];
void user(void*) {
    // session g uses the deleted record, then time passes, then another session does
    auto k = static_cast<op_kind>(sx_choose(RSCAN, "op"));
    begin_short(xs[0].t);
    run(xs[0], k, 0);
    sx_tick();
    sx_tick();
    begin_short(xs[1].t);
    sx_pause();
    sx_tick();
    sx_pause();
    sx_tick();
    if (xs[0].st == RUN) { run(xs[0], UPS, 1); }
    if (xs[0].st == RUN) { end(xs[0]); }
    run(xs[1], RD, 0);
    if (xs[1].st == RUN) { end(xs[1]); }
    sx_witness(1);
}
void user2(void*) {
    auto k = static_cast<op_kind>(sx_choose(RSCAN, "op"));
    begin_short(xs[0].t);
    run(xs[0], k, 0);
    if (xs[0].st == RUN) { end(xs[0]); }
}
} // namespace

// one of the background threads is interrupted anywhere while the others go on and sessions come and go
extern "C" void h_gc_hold() {
    setup(2);
    begin_short(w);
    sx_assert(delete_record(w, sts[0], "a") == Status::OK, "deleting");
    must_commit(w);
    state0[0] = -1;
    // any two background threads took a step since
    for (int i = 0; i < 2; i++) {
        auto k = sx_choose(sx_bg_count() + 1, "since");
        if (k < sx_bg_count()) { sx_bg_step(k); }
    }
    bool order = sx_choose(2, "order") != 0;
    xs[0].t = order ? g : x;
    xs[1].t = order ? x : g;
    xs[1].id = 1;
    sx_awake = 1U << sx_choose(sx_bg_count(), "awake");
    sx_client(user, nullptr);
    sx_run_clients(SX_TIER != 0 ? 2 : 1, true);
    sx_tick();
    check(xs, 2, w);
    no_log_errors();
    sx_witness(0);
}
namespace {
std::uint64_t other; // nobody, one beginning late, a long transaction running since long before, or that and then a reader of a later past
void snap(void*) {
    if (kind == tt::LONG) { begin_long(g, {}, false); } else { begin_ro(g, false); }
    running = true;
    sx_tick();
    sx_tick();
    {
        sx_nopreempt np;
        read_all();
    }
    if (!fixed) {
        // the thread that counts the epochs is the interrupted one
        sx_pause();
        sx_tick();
        sx_tick();
        read_all();
    }
    sx_assert(fixed, "reading is possible after two epochs");
    for (int i = 0; i < 4; i++) {
        {
            sx_nopreempt np;
            write(0, i == 1);
        }
        sx_tick();
        if (i == 2 && other == 1) { begin_short(x); }
        if (i == 2 && other >= 2) { must_commit(x, "nothing refuses it"); sx_tick(); }
        if (i == 2 && other == 3) { begin_ro(x); sx_tick(); }
        if (i >= 2) { sx_pause(); }
    }
    sx_tick();
    read_all();
    must_commit(g, "nothing refuses it");
    sx_witness(1);
}
} // namespace
// the same with a reader of the past
extern "C" void h_gc_snap() {
    setup(1);
    kind = sx_choose(2, "kind") != 0 ? tt::LONG : tt::READ_ONLY;
    other = sx_choose(4, "other");
    write(0, false);
    sx_tick();
    if (other >= 2) {
        begin_long(x, {});
        for (int i = 0; i < 3; i++) { write(0, false); sx_tick(); }
    }
    sx_awake = 1U << sx_choose(sx_bg_count(), "awake");
    sx_client(snap, nullptr);
    sx_run_clients(SX_TIER != 0 ? 2 : 1, true);
    no_log_errors();
    sx_witness(0);
}
// one background thread and one session, interrupting each other anywhere
extern "C" void h_gc_race() {
    setup(2);
    std::uint64_t what = sx_choose(SX_TIER != 0 ? 3 : 2, "before");
    if (what == 0) {
        // deleted some time ago
        begin_short(w);
        sx_assert(delete_record(w, sts[0], "a") == Status::OK, "deleting");
        must_commit(w);
        state0[0] = -1;
    } else {
        begin_short(w);
        sx_assert(upsert(w, sts[0], "a", "1") == Status::OK, "writing");
        must_commit(w);
        if (what == 2) { sx_tick(); begin_short(w); sx_assert(upsert(w, sts[0], "a", "0") == Status::OK, "writing"); must_commit(w); }
        state0[0] = what == 2 ? 0 : 1;
    }
    // an epoch passed since, but one thread did not have its turn yet
    auto late = sx_choose(sx_bg_count(), "awake");
    bool old = sx_choose(2, "old") != 0;
    for (std::size_t i = 0; i < sx_bg_count(); i++) {
        if (i != late) { sx_bg_step(i); }
        else if (old) { sx_tick(); }
    }
    xs[0].t = g;
    sx_awake = 1U << late;
    sx_client(user2, nullptr);
    sx_run_clients(SX_TIER != 0 ? 3 : 2, true);
    sx_tick();
    sx_tick();
    check(xs, 1, w);
    no_log_errors();
    sx_witness(0);
}
