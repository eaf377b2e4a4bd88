// P17: sequences.
#include "common.h"
using namespace hx;

namespace {
constexpr int NS = 2;          // sequences
struct model { SequenceId id; bool live; SequenceVersion ver; SequenceValue val; } q[NS + 1];
int nq;
Token t[3];
Storage st;
void look() {
    for (int i = 0; i < nq; i++) {
        SequenceVersion v{77};
        SequenceValue w{78};
        auto rc = read_sequence(q[i].id, &v, &w);
        if (!q[i].live) { sx_assert(rc == Status::WARN_NOT_FOUND && v == 77 && w == 78, "a deleted sequence is gone"); continue; }
        sx_assert(rc == Status::OK, "a live sequence can be read");
        sx_assert(v == q[i].ver && w == q[i].val, "a sequence shows the newest committed update");
    }
}
void make() {
    SequenceId id{};
    sx_assert(create_sequence(&id) == Status::OK, "create_sequence");
    for (int i = 0; i < nq; i++) { sx_assert(id != q[i].id, "identifiers are unique"); }
    q[nq++] = {id, true, 0, 0};
}
// updates pending in a transaction
struct pending { int s; SequenceVersion ver; SequenceValue val; bool on; } p[3][NS];
SequenceVersion any_version() {
    auto v = sx_u64(64, "version");
    sx_assume(v != SIZE_MAX); // stands for a deleted sequence
    return v;
}
void update(int i, int s) {
    auto v = any_version();
    auto w = static_cast<SequenceValue>(sx_u64(64, "value"));
    auto rc = update_sequence(t[i], q[s].id, v, w);
    pending& e = p[i][s];
    if (e.on && v <= e.ver) {
        sx_assert(rc == Status::WARN_ALREADY_EXISTS, "an older version than the transaction's own is refused");
        return;
    }
    sx_assert(rc == Status::OK, "update_sequence");
    e = {s, v, w, true};
}
void apply(int i) {
    for (int s = 0; s < NS; s++) {
        pending& e = p[i][s];
        if (e.on && q[s].live) {
            sx_assume(e.ver != q[s].ver || (e.ver == 0 && q[s].val == 0)); // the same version twice is undefined
            if (e.ver > q[s].ver) { q[s].ver = e.ver; q[s].val = e.val; sx_witness(1); }
        }
        e.on = false;
    }
}
void drop(int i) { for (auto& e : p[i]) { e.on = false; } }
void commit_one(int i) {
    Status r{Status::WARN_NOT_BEGIN};
    bool now = commit(t[i], [&r](Status rc, reason_code, durability_marker_type) { r = rc; });
    sx_assert(now && r == Status::OK, "nothing conflicts");
    apply(i);
}
void setup() {
    open_db();
    st = make_storage("s");
    nq = 0;
    for (auto& e : t) { e = open_session(); }
    make();
}
void restart() {
    for (auto e : t) { sx_assert(leave(e) == Status::OK, "leave"); }
    fin();
    sx_assert(init(db_options(database_options::open_mode::RESTORE)) == Status::OK, "restart");
    sx_tick();
    for (auto& e : t) { e = open_session(); }
}
} // namespace

// long and short transactions update sequences in any order, with epochs passing
extern "C" void h_sequence() {
    setup();
    make();
    bool two = sx_choose(2, "second") != 0;
    begin_long(t[0], {st});
    update(0, 0);
    if (two) { update(0, sx_choose(2, "seq")); }
    bool open0 = true;
    int n = SX_TIER == 0 ? 4 : 5;
    for (int k = 0; k < n; k++) {
        switch (sx_choose(open0 ? 5 : 4, "do")) {
            case 0: begin_short(t[1]); update(1, 0); commit_one(1); break;
            case 1: begin_short(t[1]); update(1, 0); sx_assert(abort(t[1]) == Status::OK, "abort"); drop(1); break;
            case 2: sx_tick(); break;
            case 3: if (!q[0].live) { sx_end(); } sx_assert(delete_sequence(q[0].id) == Status::OK, "delete_sequence"); q[0].live = false; break;
            default: commit_one(0); open0 = false; sx_witness(2); break;
        }
        look();
    }
    if (open0) { sx_assert(abort(t[0]) == Status::OK, "abort"); drop(0); }
    look();
#ifdef PWAL
    if (sx_choose(2, "restart") != 0) {
        restart();
        look();
        begin_short(t[1]);
        update(1, 0);
        commit_one(1);
        look();
        sx_witness(3);
    }
#endif
    make();
    look();
    no_log_errors();
    sx_witness(0);
}

// what does not exist, and what is done outside a transaction
extern "C" void h_sequence_bad() {
    setup();
    auto id = sx_u64(64, "id");
    SequenceVersion v{7};
    SequenceValue w{8};
    if (id != q[0].id) {
        sx_assert(read_sequence(id, &v, &w) == Status::WARN_NOT_FOUND && v == 7 && w == 8, "an unknown sequence is not found");
        sx_assert(delete_sequence(id) == Status::WARN_NOT_FOUND, "an unknown sequence cannot be deleted");
        begin_short(t[1]);
        (void) update_sequence(t[1], id, any_version(), 5);
        must_commit(t[1]);
        sx_assert(read_sequence(id, &v, &w) == Status::WARN_NOT_FOUND, "updating an unknown sequence creates nothing");
        sx_witness(1);
    }
    sx_assert(update_sequence(t[1], q[0].id, 5, 6) == Status::WARN_NOT_BEGIN, "no update without a transaction");
    begin_short(t[1]);
    must_commit(t[1]);
    look();
    sx_assert(delete_sequence(q[0].id) == Status::OK, "delete_sequence");
    q[0].live = false;
    for (unsigned k = sx_choose(3, "ticks"); k > 0; k--) { sx_tick(); }
    sx_assert(delete_sequence(q[0].id) == Status::WARN_NOT_FOUND, "deleted once");
    make();
    look();
    for (int k = 0; k < 3; k++) { sx_tick(); }
    make();
    begin_short(t[1]);
    (void) update_sequence(t[1], q[0].id, any_version(), 9);
    must_commit(t[1]);
    look();
    no_log_errors();
    sx_witness(0);
}

// concurrent short transactions on one sequence
namespace {
bool done[2];
void one(void* a) {
    int i = static_cast<int>(reinterpret_cast<std::uintptr_t>(a));
    begin_short(t[i]);
    sx_assert(update_sequence(t[i], q[0].id, static_cast<SequenceVersion>(i + 1), i + 10) == Status::OK, "update_sequence");
    SequenceVersion v0{}, v1{};
    SequenceValue w0{}, w1{};
    sx_assert(read_sequence(q[0].id, &v0, &w0) == Status::OK, "read");
    sx_assert(commit(t[i]) == Status::OK, "commit");
    sx_assert(read_sequence(q[0].id, &v1, &w1) == Status::OK, "read");
    sx_assert(v1 >= v0 && v1 >= static_cast<SequenceVersion>(i + 1), "versions seen only grow");
    sx_assert(v1 == 1 ? w1 == 10 : v1 == 2 && w1 == 11, "the value belongs to the version");
    sx_assert(v0 == 0 ? w0 == 0 : v0 == 1 ? w0 == 10 : v0 == 2 && w0 == 11, "the value belongs to the version");
    if (v0 != 0) { sx_witness(1); }
    done[i] = true;
}
} // namespace
extern "C" void h_sequence_race() {
    setup();
    for (std::uintptr_t i = 0; i < 2; i++) { done[i] = false; sx_client(one, reinterpret_cast<void*>(i)); }
    sx_run_clients(SX_TIER == 0 ? 2 : 3);
    sx_assert(done[0] && done[1], "both ended");
    q[0].ver = 2; q[0].val = 11;
    look();
#ifdef PWAL
    restart();
    look();
#endif
    no_log_errors();
    sx_witness(0);
}
