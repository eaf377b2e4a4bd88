// P04: a transaction that does not commit leaves no trace.
#include "hist.h"
using namespace hist;

namespace {
Token r;
struct what { op_kind k; int key; };
what pick(bool scan) {
    static const op_kind kinds[] = {RD, INS, UPD, UPS, DEL};
    auto i = sx_choose(scan ? 16 : 15, "operation");
    if (i == 15) { return {SCAN, 0}; }
    return {kinds[i / 3], static_cast<int>(i % 3)};
}
void same(Token t, tt kind, const char* msg) {
    if (kind == tt::SHORT) { begin_short(t); } else if (kind == tt::LONG) { begin_long(t, {sts[0]}); } else { begin_ro(t); }
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        Status rc = search_key(t, sts[0], keys[j].k, b);
        sx_assert(rc == (state0[j] < 0 ? Status::WARN_NOT_FOUND : Status::OK), msg);
        sx_assert(state0[j] < 0 || b == "0", msg);
    }
    op o;
    sx_assert(scan_all(t, 0, o, false) == Status::OK && !o.part, msg);
    int n = 0;
    for (int j = 0; j < nkeys; j++) {
        if (state0[j] < 0) { continue; }
        sx_assert(n < o.nsc && o.sc_k[n] == j && o.sc_v[n] == 0, msg);
        n++;
    }
    sx_assert(n == o.nsc, msg);
    must_commit(t, "reading after an abort commits");
}
void setup() {
    open_db();
    sts[0] = make_storage("s");
    nkeys = 3;
    keys[0] = {0, "a"};
    keys[1] = {0, "b"};
    keys[2] = {0, "c"};
    r = open_session();
    fill(r, 1, 2); // a present, b deleted before, c never written
}
// everything works afterwards for anybody
void afterwards(Token t) {
    static const tt kinds[] = {tt::SHORT, tt::LONG, tt::READ_ONLY};
    auto k = sx_choose(3, "reader");
    if (sx_choose(2, "epochs pass") != 0) { sx_tick(); sx_tick(); sx_tick(); }
    same(sx_choose(2, "session") != 0 ? t : r, kinds[k], "the contents are as if the transaction had not run");
    // every key can be inserted, changed and removed
    auto kk = sx_choose(2, "writer");
    if (kk != 0) { begin_long(t, {sts[0]}); } else { begin_short(t); }
    for (int j = 0; j < nkeys; j++) {
        sx_assert(insert(t, sts[0], keys[j].k, "1") == (state0[j] < 0 ? Status::OK : Status::WARN_ALREADY_EXISTS), "insert after an abort");
        sx_assert(update(t, sts[0], keys[j].k, "2") == Status::OK, "update after an abort");
    }
    must_commit(t, "writing after an abort commits");
    begin_short(r);
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        sx_assert(search_key(r, sts[0], keys[j].k, b) == Status::OK && b == "2", "writes after an abort are there");
        sx_assert(delete_record(r, sts[0], keys[j].k) == Status::OK, "delete after an abort");
    }
    must_commit(r, "deleting after an abort commits");
    begin_short(r);
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        sx_assert(search_key(r, sts[0], keys[j].k, b) == Status::WARN_NOT_FOUND, "deletes after an abort are there");
    }
    must_commit(r);
    no_log_errors();
    sx_witness(0);
}
} // namespace

// aborted on request
extern "C" void h_abort() {
    setup();
    tx x;
    x.t = open_session();
    x.kind = sx_choose(2, "kind") != 0 ? tt::LONG : tt::SHORT;
    if (x.kind == tt::LONG) { begin_long(x.t, {sts[0]}); } else { begin_short(x.t); }
    for (int i = 0; i < (SX_TIER != 0 ? 3 : 2); i++) {
        auto w = pick(true);
        Status rc = run(x, w.k, w.key);
        sx_assert(!is_error(rc) && !no_effect(rc), "operations of a lone transaction are accepted");
    }
    sx_assert(abort(x.t) == Status::OK, "abort succeeds");
    afterwards(x.t);
}
// refused: another transaction spoils a read at some point
extern "C" void h_refused() {
    setup();
    tx x;
    x.t = open_session();
    begin_short(x.t);
    auto at = sx_choose(3, "spoiled at");
    for (unsigned i = 0; i < 3 && x.st == RUN; i++) {
        if (i == at) {
            // another transaction writes all keys, then takes it back
            for (int k = 0; k < 2; k++) {
                begin_short(r);
                for (int j = 0; j < nkeys; j++) {
                    Status rc = k == 0 || state0[j] >= 0 ? upsert(r, sts[0], keys[j].k, "0") : delete_record(r, sts[0], keys[j].k);
                    sx_assert(rc == Status::OK, "the other transaction's writes");
                }
                must_commit(r, "the other transaction commits");
            }
        }
        if (i == 2) { break; }
        auto w = pick(true);
        run(x, w.k, w.key);
    }
    if (x.st == RUN) {
        Status rc = commit(x.t);
        if (rc == Status::OK) { sx_end(); }
        sx_witness(1);
    }
    afterwards(x.t);
}
// another transaction works on the same keys while the aborted one runs
extern "C" void h_abort_other() {
    setup();
    tx x[2];
    for (int i = 0; i < 2; i++) { x[i].t = open_session(); x[i].id = i; }
    x[0].kind = sx_choose(2, "kind") != 0 ? tt::LONG : tt::SHORT;
    if (x[0].kind == tt::LONG) { begin_long(x[0].t, {sts[0]}); } else { begin_short(x[0].t); }
    begin_short(x[1].t);
    bool ended = false;
    int n0 = 0;
    while (x[1].st == RUN || !ended) {
        int i = x[1].st != RUN ? 0 : ended ? 1 : static_cast<int>(sx_choose(2, "turn"));
        if (i == 0) {
            if (n0++ == 1) {
                ended = true;
                if (x[0].st == RUN) { sx_assert(abort(x[0].t) == Status::OK, "abort succeeds"); x[0].st = ABO; }
                continue;
            }
        } else if (x[1].n == 2) { end(x[1]); continue; }
        auto w = pick(true);
        run(x[i], w.k, w.key);
    }
    if (x[1].st == COM) { sx_witness(1); }
    check(x, 2, r, "an aborted transaction does not show, the other one does");
    no_log_errors();
    sx_witness(0);
}
