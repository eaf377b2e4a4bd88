// P05: a commit becomes visible as a whole.
#include "hist.h"
using namespace hist;

namespace {
Token w, r, r0;
tt wkind, rkind;
bool reader_ok;
int got[2];
Status read1(int j) {
    std::string b;
    Status rc{};
    for (int i = 0; i < 4; i++) {
        rc = search_key(r, sts[keys[j].st], keys[j].k, b);
        if (rc != Status::WARN_PREMATURE) { break; }
        sx_tick();
    }
    if (rc == Status::OK) { got[j] = b.size() == 1 ? b[0] - '0' : -2; }
    else if (rc == Status::WARN_NOT_FOUND) { got[j] = -1; }
    else {
        sx_assert(rkind != tt::READ_ONLY || rc == Status::WARN_PREMATURE, "a read-only transaction is not refused");
        got[j] = -9;
    }
    return rc;
}
void writer(void*) {
    sx_assert(upsert(w, sts[0], keys[0].k, "1") == Status::OK, "write");
    sx_assert(upsert(w, sts[keys[1].st], keys[1].k, "1") == Status::OK, "write");
    commit(w);
}
void reader(void*) {
    if (rkind == tt::SHORT) { begin_short(r); }
    else if (rkind == tt::LONG) { begin_long(r, {}, false); sx_tick(); }
    else { sx_tick(); begin_ro(r, false); sx_tick(); }
    Status rc = read1(0);
    if (is_error(rc)) { return; }
    rc = read1(1);
    if (is_error(rc)) { return; }
    rc = commit(r);
    sx_assert(rkind != tt::READ_ONLY || rc == Status::OK, "a read-only transaction commits");
    reader_ok = rc == Status::OK;
}
void go(bool present, unsigned preempt) {
    open_db();
    sts[0] = make_storage("s");
    sts[1] = make_storage("t");
    nkeys = 2;
    keys[0] = {0, "a"};
    keys[1] = {static_cast<int>(sx_choose(2, "second storage")), "b"};
    w = open_session();
    r = open_session();
    fill(w, present ? 3 : 0);
    sx_tick();
    sx_tick();
    wkind = sx_choose(2, "writer") != 0 ? tt::LONG : tt::SHORT;
    if (wkind == tt::LONG) { begin_long(w, {sts[0], sts[1]}); } else { begin_short(w); }
    sx_client(writer, nullptr);
    sx_client(reader, nullptr);
    sx_run_clients(preempt);
    if (reader_ok && got[0] != -9 && got[1] != -9) {
        sx_assert(got[0] == got[1], "a transaction sees all writes of another one or none");
        sx_witness(got[0] == 1 ? 1 : 2);
    }
    no_log_errors();
    sx_witness(0);
}
} // namespace
extern "C" void h_whole_ro() {
    rkind = tt::READ_ONLY;
    go(sx_choose(2, "present") != 0, SX_TIER != 0 ? 3 : 2);
}
extern "C" void h_whole_rw() {
    rkind = sx_choose(2, "reader") != 0 ? tt::LONG : tt::SHORT;
    go(SX_TIER == 0 || sx_choose(2, "present") != 0, 2);
}
