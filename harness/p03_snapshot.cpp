// P03: a read-only transaction sees one fixed committed state and never fails.
#include "hist.h"
using namespace hist;

namespace {
constexpr int MAXS = 12;
int states[MAXS][NK];
int nstates;
int val;
Token w, l, ro;
bool open_ro;
int ticks; // epochs since the reader began
tx seen[1];
int reads;
std::uint64_t fits; // states that explain everything read so far

void epochs(int n) {
    for (int i = 0; i < n; i++) { sx_tick(); }
    ticks += n;
}

void committed(int key, int v) {
    sx_assert(nstates < MAXS, "harness: states");
    for (int j = 0; j < nkeys; j++) { states[nstates][j] = states[nstates - 1][j]; }
    states[nstates++][key] = v;
}
void write(bool is_long, int key, bool del) {
    Token t = is_long ? l : w;
    if (is_long) { begin_long(t, {sts[0]}, false); epochs(2); } else { begin_short(t); }
    char c = code(++val);
    Status rc = del ? delete_record(t, sts[0], keys[key].k) : upsert(t, sts[0], keys[key].k, std::string_view{&c, 1});
    bool was = states[nstates - 1][key] >= 0;
    sx_assert(rc == (del && !was ? Status::WARN_NOT_FOUND : Status::OK), "write in a transaction of its own");
    must_commit(t);
    if (rc == Status::OK) { committed(key, del ? -1 : val); }
}
void narrow(std::uint64_t ok) {
    fits &= ok;
    sx_assert(fits != 0, "all reads of a read-only transaction come from one committed state");
}
bool active; // the reader has read something, so its snapshot is fixed
void read_all() {
    reads++;
    if (!active) {
        std::string b;
        if (search_key(ro, sts[0], keys[0].k, b) == Status::WARN_PREMATURE) {
            sx_assert(ticks < 2, "a read-only transaction can read two epochs after its begin");
            return;
        }
        // whatever is committed from now on is not in it
        active = true;
        for (int i = 0; i < nstates; i++) { fits |= 1ULL << static_cast<unsigned>(i); }
    }
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        Status rc = search_key(ro, sts[0], keys[j].k, b);
        sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "a read of a read-only transaction is never refused");
        int got = rc == Status::OK ? (b.size() == 1 ? b[0] - '0' : -2) : -1;
        std::uint64_t m = 0;
        for (int i = 0; i < nstates; i++) { if (states[i][j] == got) { m |= 1ULL << static_cast<unsigned>(i); } }
        narrow(m);
    }
    op o;
    Status rc = scan_all(ro, 0, o, false);
    sx_assert(rc == Status::OK && !o.part, "a scan of a read-only transaction is never refused");
    std::uint64_t m = 0;
    for (int i = 0; i < nstates; i++) {
        int n = 0;
        bool same = true;
        for (int j = 0; j < nkeys; j++) {
            if (states[i][j] < 0) { continue; }
            same = same && n < o.nsc && o.sc_k[n] == j && o.sc_v[n] == states[i][j];
            n++;
        }
        if (same && n == o.nsc) { m |= 1ULL << static_cast<unsigned>(i); }
    }
    narrow(m);
}
void start_ro() {
    begin_ro(ro, false);
    open_ro = true;
    active = false;
    fits = 0;
    ticks = 0;
}
void setup() {
    open_db();
    sts[0] = make_storage();
    nkeys = 2;
    keys[0] = {0, "a"};
    keys[1] = {0, "b"};
    w = open_session();
    l = open_session();
    ro = open_session();
    fill(w, 1);
    nstates = 1;
    for (int j = 0; j < nkeys; j++) { states[0][j] = state0[j]; }
}
} // namespace

extern "C" void h_snapshot() {
    setup();
    const int steps = SX_TIER != 0 ? 6 : 5;
    for (int s = 0; s < steps; s++) {
        switch (sx_choose(open_ro ? 7 : 8, "step")) {
            case 0: write(false, 0, false); break;
            case 1: write(false, 0, true); break;
            case 2: write(true, 0, false); break;
            case 3: write(true, 0, true); break;
            case 4: write(false, 1, false); break;
            case 5: write(false, 1, true); break;
            case 6: epochs(1); break;
            default: start_ro(); read_all(); break;
        }
        if (open_ro) { read_all(); }
    }
    if (!open_ro) { sx_end(); }
    if (!active) { epochs(2); read_all(); }
    must_commit(ro, "a read-only transaction commits");
    epochs(2);
    // a later reader sees the newest contents once they are old enough
    start_ro();
    epochs(2);
    read_all();
    sx_assert((fits >> static_cast<unsigned>(nstates - 1) & 1U) != 0, "what was committed two epochs before is seen");
    must_commit(ro, "a read-only transaction commits");
    no_log_errors();
    if (nstates > 4) { sx_witness(1); }
    sx_witness(0);
}
