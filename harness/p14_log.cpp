// P14: what the log receives. P15: what survives a crash.
#include "hist.h"
using namespace hist;

namespace {
tx x[3];
Token reader;
void setup(int n, unsigned present, unsigned gone) {
    open_db();
    sts[0] = make_storage("s");
    sts[1] = make_storage("t");
    nkeys = 3;
    keys[0] = {0, "a"};
    keys[1] = {0, "b"};
    keys[2] = {1, "a"};
    reader = open_session();
    for (int i = 0; i < n; i++) { x[i].t = open_session(); x[i].id = i; x[i].st = RUN; x[i].n = 0; }
    fill(reader, present, gone);
    sx_tick();
}
void begin(int i) {
    switch (x[i].kind) {
        case tt::SHORT: begin_short(x[i].t); break;
        case tt::LONG: begin_long(x[i].t, {sts[0], sts[1]}); break;
        default: begin_ro(x[i].t); break;
    }
}
// the write a committed transaction leaves for key k: -2 none, -1 delete, otherwise the value
int final_write(tx const& t, int k) {
    int w = -2;
    for (int i = 0; i < t.n; i++) {
        op const& o = t.o[i];
        if (o.key != k || o.rc != Status::OK) { continue; }
        if (o.kind == INS || o.kind == UPD || o.kind == UPS) { w = o.val; }
        if (o.kind == DEL) { w = -1; }
    }
    return w;
}
std::size_t log0;
void check_entries(int n, int const* now) {
    int want_del[NK] = {}, may_del[NK] = {}, got_del[NK] = {};
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < nkeys; k++) {
            int w = final_write(x[i], k);
            if (w == -1 && x[i].st == COM) {
                bool own = false; // a key it may have created itself
                for (int o = 0; o < x[i].n; o++) { own = own || (x[i].o[o].key == k && (x[i].o[o].kind == INS || x[i].o[o].kind == UPS)); }
                want_del[k]++;
                if (own || (x[i].kind == tt::LONG && now[k] != -1)) { may_del[k]++; }
            }
            int found = 0;
            for (std::size_t e = log0; e < sx_log_size(); e++) {
                auto const& l = sx_log_at(e);
                if (l.kind == 0 && l.st == sts[keys[k].st] && l.k == keys[k].k && l.v.size() == 1 && l.v[0] == code(w)) { found++; }
            }
            if (w < 0) { continue; }
            // one that is superseded already when it commits may be left out
            bool may_miss = x[i].st != COM || (x[i].kind == tt::LONG && now[k] != w);
            sx_assert(found <= (x[i].st == COM ? 1 : 0) && (found == 1 || may_miss), "each final write of a committed transaction is in the log once, others are not");
        }
    }
    for (std::size_t e = log0; e < sx_log_size(); e++) {
        auto const& l = sx_log_at(e);
        int k = -1;
        for (int j = 0; j < nkeys; j++) { if (l.st == sts[keys[j].st] && l.k == keys[j].k) { k = j; } }
        sx_assert(k >= 0 && (l.kind == 0 || l.kind == 1), "only writes and deletes of the keys used are in the log");
        if (l.kind == 1) { got_del[k]++; continue; }
        bool known = false;
        for (int i = 0; i < n; i++) { known = known || (x[i].st == COM && final_write(x[i], k) >= 0 && l.v.size() == 1 && l.v[0] == code(final_write(x[i], k))); }
        sx_assert(known, "the log has only final writes of committed transactions");
    }
    for (int k = 0; k < nkeys; k++) { sx_assert(got_del[k] <= want_del[k] && got_del[k] >= want_del[k] - may_del[k], "each delete of a committed transaction is in the log once, others are not"); }
}
void same_after_restart(int const* want) {
    for (auto* t : {&x[0], &x[1]}) { sx_assert(leave(t->t) == Status::OK, "leave"); }
    sx_assert(leave(reader) == Status::OK, "leave");
    fin();
    sx_assert(init(db_options(database_options::open_mode::RESTORE)) == Status::OK, "restart");
    sx_tick();
    for (int i = 0; i < 2; i++) {
        Storage st{};
        sx_assert(get_storage(i == 0 ? "s" : "t", st) == Status::OK && st == sts[i], "the storages are back");
    }
    reader = open_session();
    int got[NK];
    read_state(reader, got);
    for (int j = 0; j < nkeys; j++) { sx_assert(got[j] == want[j], "replaying the log yields the contents of the running database"); }
}
} // namespace

// short transactions of several sessions, one after another within one or more epochs
extern "C" void h_log_short() {
    open_db();
    sts[0] = make_storage("s");
    sts[1] = make_storage("t");
    nkeys = 1;
    keys[0] = {0, "a"};
    for (int i = 0; i < 2; i++) { x[i].t = open_session(); }
    reader = open_session(); // no older than the others, so that its writes are not numbered higher
    int want[NK] = {-1};
    const int n = SX_TIER != 0 ? 5 : 4;
    for (int i = 0; i < n; i++) {
        Token t = i == 0 ? reader : x[sx_choose(2, "session")].t;
        if (i == 0 || sx_choose(2, "delete") == 0) {
            char c = code(i);
            put1(t, sts[0], "a", std::string_view{&c, 1});
            want[0] = i;
        } else if (want[0] >= 0) {
            del1(t, sts[0], "a");
            want[0] = -1;
        } else { sx_end(); }
        if (sx_choose(2, "tick") != 0) { sx_tick(); }
    }
    int now[NK];
    read_state(reader, now);
    sx_assert(now[0] == want[0], "contents");
    for (int i = 0; i < 3; i++) { sx_tick(); }
    same_after_restart(want);
    if (want[0] >= 0) { sx_witness(1); }
    no_log_errors();
    sx_witness(0);
}

// the blob references given with the last write of a key are the ones the log gets
extern "C" void h_log_blobs() {
    setup(1, 1, sx_choose(2, "gone") != 0 ? 2 : 0);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    log0 = sx_log_size();
    x[0].kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    begin(0);
    auto k = static_cast<int>(sx_choose(2, "key"));
    Token t = x[0].t;
    std::vector<std::uint64_t> want;
    int state = -2; // -2 nothing written, -1 deleted, otherwise the number of the write
    const int n = SX_TIER != 0 ? 4 : 3;
    for (int i = 0; i < n; i++) {
        auto op = sx_choose(5, "op");
        if (op == 4) { continue; }
        char c = code(i);
        std::string_view val{&c, 1};
        std::uint64_t ids[2] = {0, 0};
        std::size_t nb = op == 3 ? 0 : sx_choose(3, "blobs");
        for (std::size_t j = 0; j < nb; j++) { ids[j] = sx_u64(64, "blob"); }
        std::uint64_t const* p = nb == 0 ? nullptr : ids;
        Status rc{};
        if (op == 0) { rc = insert(t, sts[0], keys[k].k, val, p, nb); }
        else if (op == 1) { rc = upsert(t, sts[0], keys[k].k, val, p, nb); }
        else if (op == 2) { rc = update(t, sts[0], keys[k].k, val, p, nb); }
        else { rc = delete_record(t, sts[0], keys[k].k); }
        ids[0] = ids[0] ^ 1; // the caller's list is the caller's again
        if (op == 3 && (rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT)) { rc = Status::OK; }
        if (rc == Status::OK) {
            state = op == 3 ? -1 : i;
            want.clear();
            for (std::size_t j = 0; j < nb; j++) { want.push_back(j == 0 ? ids[0] ^ 1 : ids[j]); }
        }
    }
    end_cb(x[0]);
    settle(x, 1);
    sx_assert(x[0].st == COM, "commit");
    for (int i = 0; i < 3; i++) { sx_tick(); }
    bool found = false;
    for (std::size_t i = log0; i < sx_log_size(); i++) {
        auto const& e = sx_log_at(i);
        if (e.kind == 1) { sx_assert(e.blobs.empty(), "no blobs with a delete"); continue; }
        if (e.kind != 0) { continue; }
        sx_assert(!found && state >= 0, "one entry for one write");
        found = true;
        sx_assert(e.v.size() == 1 && e.v[0] == code(state), "the last value is logged");
        sx_assert(e.blobs.size() == want.size(), "the number of blobs logged");
        for (std::size_t j = 0; j < want.size(); j++) { sx_assert(e.blobs[j] == want[j], "the blobs given with the last write are logged"); }
        if (want.size() == 2) { sx_witness(1); }
    }
    sx_assert(found == (state >= 0), "the write is logged");
    no_log_errors();
    sx_witness(0);
}

extern "C" void h_log() {
    setup(2, 1 | 4, SX_TIER != 0 && sx_choose(2, "gone") != 0 ? 2 : 0);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    log0 = sx_log_size();
    for (int i = 0; i < 2; i++) { x[i].kind = i == 0 && SX_TIER == 0 ? tt::LONG : static_cast<tt>(sx_choose(2, "long") != 0 ? 1 : 0) == static_cast<tt>(1) ? tt::LONG : tt::SHORT; }
    static const op_kind ks[] = {UPS, INS, DEL, UPD};
    bool open[2] = {false, false};
    int left[2] = {2, SX_TIER == 0 ? 1 : 2};
    if (x[0].kind == tt::LONG && x[1].kind == tt::LONG && sx_choose(2, "same epoch") != 0) {
        begin_long(x[0].t, {sts[0], sts[1]}, false);
        begin_long(x[1].t, {sts[0], sts[1]});
        open[0] = open[1] = true;
    }
    // begins, operations and ends in any order
    while (x[0].st == RUN || x[1].st == RUN) {
        int i = x[0].st != RUN ? 1 : x[1].st != RUN ? 0 : static_cast<int>(sx_choose(2, "who"));
        tx& y = x[i];
        if (!open[i]) { open[i] = true; begin(i); continue; }
        if (left[i]-- > 0) {
            auto k = static_cast<int>(sx_choose(2, "key"));
            run(y, ks[sx_choose(4, "op")], k);
            continue;
        }
        if (SX_TIER != 0 && sx_choose(2, "abort") != 0) { sx_assert(abort(y.t) == Status::OK, "abort"); y.st = ABO; }
        else { end_cb(y); settle(&y, 1, 1); }
        if (sx_choose(2, "tick") != 0) { sx_tick(); }
    }
    settle(x, 2);
    int want[NK];
    read_state(reader, want);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    check_entries(2, want);
    if (x[0].st == COM && x[1].st == COM) { sx_witness(1); }
    if (x[0].st == ABO || x[1].st == ABO) { sx_witness(2); }
    same_after_restart(want);
    sx_assert(sx_log_bad_use == 0, "entries are written inside a log session");
    no_log_errors();
    sx_witness(0);
}
