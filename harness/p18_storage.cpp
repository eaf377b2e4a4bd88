// P18: storages. P16: storages after a restart.
#include "common.h"
using namespace hx;

namespace {
constexpr int NN = 3; // names
const char* const names[NN] = {"", "a", "ab"};
struct entry { bool live; Storage st; std::uint64_t id; int pay; int val; } m[NN];
const char* const pays[] = {"", "x", "yz"};
Storage past[16];
int npast;
Token t, t2;

void look() {
    std::vector<std::string> l{std::string("left over")};
    sx_assert(list_storage(l) == Status::OK, "list_storage");
    std::size_t n = 0;
    for (int i = 0; i < NN; i++) {
        Storage s{12345};
        auto rc = get_storage(names[i], s);
        int listed = 0;
        for (auto& e : l) { if (e == names[i]) { listed++; } }
        if (!m[i].live) {
            sx_assert(rc == Status::WARN_NOT_FOUND && listed == 0, "a name without storage is unknown");
            continue;
        }
        n++;
        sx_assert(rc == Status::OK && s == m[i].st && listed == 1, "a name resolves to its storage");
        storage_option o{};
        sx_assert(storage_get_options(s, o) == Status::OK && o.id() == m[i].id && o.payload() == pays[m[i].pay], "a storage keeps its options");
        for (int j = 0; j < i; j++) { sx_assert(!m[j].live || m[j].st != s, "identifiers of live storages are distinct"); }
    }
    sx_assert(l.size() == n, "only live storages are listed");
}
void contents() {
    for (int i = 0; i < NN; i++) {
        if (!m[i].live) { continue; }
        std::string v;
        begin_short(t);
        auto rc = search_key(t, m[i].st, "k", v);
        if (m[i].val == 0) { sx_assert(rc == Status::WARN_NOT_FOUND, "a storage starts empty and shares no records"); }
        else { sx_assert(rc == Status::OK && v.size() == 1 && v[0] == static_cast<char>(m[i].val), "a storage keeps its records"); }
        must_commit(t);
    }
}
int counter;
bool two;
void put(int i) {
    char c = static_cast<char>('A' + counter++);
    put1(two && sx_choose(2, "session") != 0 ? t2 : t, m[i].st, "k", std::string_view(&c, 1));
    m[i].val = c;
}
void create(int i, bool with_id, bool any = true) {
    std::uint64_t id = storage_id_undefined;
    if (with_id) { id = any ? sx_u64(64, "id") : static_cast<std::uint64_t>(5); }
    int pay = static_cast<int>(SX_TIER == 0 ? (npast + 1) % 3 : sx_choose(3, "payload"));
    Storage s{};
    bool dup = false;
    if (id != storage_id_undefined) { for (auto& e : m) { dup = dup || (e.live && e.st == id); } }
    bool too_big = id != storage_id_undefined && id >> 32U != 0;
    auto rc = create_storage(names[i], s, storage_option{id, pays[pay]});
    if (m[i].live) { sx_assert(rc == Status::WARN_ALREADY_EXISTS, "a name in use is refused"); return; }
    if (too_big) { sx_assert(rc == Status::WARN_STORAGE_ID_DEPLETION, "an identifier out of range is refused"); return; }
    if (dup) { sx_assert(rc == Status::WARN_ALREADY_EXISTS, "an identifier in use is refused"); sx_witness(2); return; }
    sx_assert(rc == Status::OK, "create_storage");
    if (id != storage_id_undefined) { sx_assert(s == id, "the requested identifier is used"); }
    m[i] = {true, s, id, pay, 0};
    past[npast++] = s;
}
void drop(int i) {
    sx_assert(delete_storage(m[i].st) == Status::OK, "delete_storage");
    m[i].live = false;
    sx_witness(1);
}
void step() {
    int i = static_cast<int>(sx_choose(NN, "name"));
    switch (sx_choose(5, "do")) {
        case 0: create(i, false); break;
        case 1: create(i, true); break;
        case 2: if (!m[i].live) { sx_end(); } drop(i); break;
        case 3: {
            if (!m[i].live) { sx_end(); }
            int pay = static_cast<int>(SX_TIER == 0 ? (npast + 1) % 3 : sx_choose(3, "payload"));
            auto id = sx_u64(64, "newid");
            sx_assert(storage_set_options(m[i].st, storage_option{id, pays[pay]}) == Status::OK, "storage_set_options");
            m[i].id = id;
            m[i].pay = pay;
            break;
        }
        default: if (!m[i].live) { sx_end(); } put(i); break;
    }
}
void reset() {
    for (auto& e : m) { e.live = false; }
    npast = 0;
    counter = 0;
    two = false;
    open_db();
    t = open_session();
}
} // namespace

extern "C" void h_storage() {
    reset();
    int n = 3;
    for (int k = 0; k < n; k++) {
        step();
        look();
    }
    contents();
    no_log_errors();
    sx_witness(0);
}

// handles of deleted storages and any others
extern "C" void h_storage_bad() {
    reset();
    create(1, false);
    put(1);
    create(2, true, false);
    put(2);
    if (sx_choose(2, "deleted") != 0) { drop(1); if (sx_choose(2, "tick") != 0) { sx_tick(); sx_tick(); } }
    auto s = static_cast<Storage>(sx_u64(64, "handle"));
    for (auto& e : m) { sx_assume(!e.live || e.st != s); }
    storage_option o{};
    switch (sx_choose(5, "do")) {
        case 0: sx_assert(delete_storage(s) == Status::WARN_INVALID_HANDLE, "an unknown storage cannot be deleted"); break;
        case 1: sx_assert(storage_get_options(s, o) == Status::WARN_NOT_FOUND, "an unknown storage has no options"); break;
        case 2: sx_assert(storage_set_options(s, o) == Status::WARN_NOT_FOUND, "an unknown storage takes no options"); break;
        case 3: {
            // the engine's own storages are no business of a user
            sx_assume(s < UINT64_MAX - 8);
            begin_short(t);
            std::string v;
            Status rc{};
            switch (sx_choose(7, "op")) {
                case 0: rc = search_key(t, s, "k", v); break;
                case 1: rc = insert(t, s, "k", "v"); break;
                case 2: rc = update(t, s, "k", "v"); break;
                case 3: rc = upsert(t, s, "k", "v"); break;
                case 4: rc = delete_record(t, s, "k"); break;
                case 5: rc = exist_key(t, s, "k"); break;
                default: { ScanHandle h{}; rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h); break; }
            }
            sx_assert(rc == Status::WARN_STORAGE_NOT_FOUND || rc == Status::WARN_NOT_FOUND, "an unknown storage has no records");
            must_commit(t);
            break;
        }
        default: sx_assume(s < UINT64_MAX - 8); sx_assert(tx_begin({t, tt::LONG, {s}}) == Status::WARN_INVALID_ARGS, "an unknown storage cannot be reserved"); break;
    }
    look();
    contents();
    sx_tick();
    create(0, false);
    look();
    contents();
    no_log_errors();
    sx_witness(0);
}

// two sessions create, delete and look up the same names
namespace {
Status r[2];
Storage rs[2];
unsigned what;
void client(void* a) {
    auto i = reinterpret_cast<std::uintptr_t>(a);
    switch (i == 0 ? what : what == 2 ? 2U : 0U) {
        case 0: r[i] = create_storage("n", rs[i]); break;
        case 1: r[i] = get_storage("n", rs[i]); break;
        default: r[i] = delete_storage(m[1].st); break;
    }
}
} // namespace
extern "C" void h_storage_race() {
    reset();
    what = sx_choose(3, "what");
    if (what == 2) { create(1, false); put(1); }
    sx_client(client, nullptr);
    sx_client(client, reinterpret_cast<void*>(static_cast<std::uintptr_t>(1)));
    sx_run_clients(SX_TIER == 0 ? 2 : 3);
    Storage s{};
    switch (what) {
        case 0:
            sx_assert((r[0] == Status::OK) != (r[1] == Status::OK), "one of two creations of a name succeeds");
            sx_assert(r[0] == Status::OK || r[0] == Status::WARN_ALREADY_EXISTS, "and the other is told");
            sx_assert(r[1] == Status::OK || r[1] == Status::WARN_ALREADY_EXISTS, "and the other is told");
            sx_assert(get_storage("n", s) == Status::OK && s == rs[r[0] == Status::OK ? 0 : 1], "the name resolves to it");
            break;
        case 1:
            sx_assert(r[1] == Status::OK, "creation succeeds");
            sx_assert(r[0] == Status::WARN_NOT_FOUND || (r[0] == Status::OK && rs[0] == rs[1]), "a name is unknown or resolves");
            if (r[0] == Status::OK) { sx_witness(1); }
            break;
        default:
            sx_assert((r[0] == Status::OK) != (r[1] == Status::OK), "one of two deletions succeeds");
            sx_assert((r[0] == Status::OK ? r[1] : r[0]) == Status::WARN_INVALID_HANDLE, "and the other is told");
            m[1].live = false;
            look();
            break;
    }
    create(0, false);
    put(0);
    contents();
    no_log_errors();
    sx_witness(0);
}

#ifdef PWAL
namespace {
void restart(bool crash, std::size_t parallel) {
    if (!crash) { sx_assert(leave(t) == Status::OK && leave(t2) == Status::OK, "leave"); fin(); }
    else {
        // what was not durable is lost
        auto d = sx_log_durable();
        fin(true);
        sx_log_crash(d);
    }
    auto o = db_options(database_options::open_mode::RESTORE);
    o.set_recover_max_parallelism(static_cast<int>(parallel));
    o.set_index_restore_threads(parallel);
    sx_assert(init(o) == Status::OK, "restart");
    sx_tick();
    t = open_session();
    t2 = open_session();
}
void logged_step() {
    int i = 1 + static_cast<int>(sx_choose(NN - 1, "name"));
    switch (sx_choose(5, "do")) {
        case 0: create(i, false); break;
        case 1: create(i, true, false); break;
        case 2: if (!m[i].live) { sx_end(); } drop(i); break;
        case 3: {
            if (!m[i].live) { sx_end(); }
            auto id = sx_u64(64, "newid");
            m[i].pay = (m[i].pay + 1) % 3;
            sx_assert(storage_set_options(m[i].st, storage_option{id, pays[m[i].pay]}) == Status::OK, "storage_set_options");
            m[i].id = id;
            break;
        }
        default: if (!m[i].live) { sx_end(); } put(i); break;
    }
    if (sx_choose(2, "tick") != 0) { sx_tick(); }
}
} // namespace
extern "C" void h_storage_restart() {
    reset();
    two = true;
    t2 = open_session();
    int n = SX_TIER == 0 ? 3 : 4;
    if (sx_choose(2, "before") != 0) {
        create(1, true, false);
        put(1);
        if (sx_choose(2, "tick") != 0) { sx_tick(); }
    }
    for (int k = 0; k < n; k++) { logged_step(); }
    auto how = sx_choose(SX_TIER == 0 ? 3 : 4, "how");
    bool crash = (how & 1U) != 0;
    if (crash) { for (int k = 0; k < 4; k++) { sx_tick(); } }
    restart(crash, how & 2U);
    look();
    contents();
    two = false;
    // the recovered ones are as usable as new ones
    for (int i = 0; i < NN; i++) { if (m[i].live) { put(i); sx_witness(2); } }
    for (int i = 0; i < NN; i++) { if (!m[i].live) { create(i, i == 1, false); } }
    look();
    contents();
    if (SX_TIER != 0) {
        drop(1);
        restart(false, 0);
        look();
        contents();
    }
    no_log_errors();
    sx_witness(0);
}

// the index is restored by two threads at any pace
namespace {
Status opened;
void c_restore(void*) {
    auto o = db_options(database_options::open_mode::RESTORE);
    o.set_index_restore_threads(2);
    opened = init(o);
}
} // namespace
extern "C" void h_restore_threads() {
    reset();
    auto what = sx_choose(3, "what");
    SequenceId q[2]{};
    if (what == 0) {
        // a storage with two records
        create(1, sx_choose(2, "id") != 0, false);
        put(1);
        put1(t, m[1].st, "l", "1");
    } else if (what == 1) {
        // two storages, one with a record
        create(1, false);
        create(2, true, false);
        put(2);
    } else {
        // two sequences
        sx_assert(create_sequence(&q[0]) == Status::OK && create_sequence(&q[1]) == Status::OK, "create_sequence");
        for (int i = 0; i < 2; i++) {
            begin_short(t);
            sx_assert(update_sequence(t, q[i], 2, 10 + i) == Status::OK, "update_sequence");
            must_commit(t);
        }
    }
    for (int k = 0; k < 3; k++) { sx_tick(); }
    sx_assert(leave(t) == Status::OK, "leave");
    fin();
    sx_log_scatter = true;
    sx_client(c_restore, nullptr);
    sx_run_clients(SX_TIER == 0 ? 1 : 2, true, 0);
    sx_log_scatter = false;
    sx_assert(opened == Status::OK, "restart");
    sx_tick();
    t = open_session();
    look();
    contents();
    if (what == 0) {
        std::string v;
        begin_short(t);
        sx_assert(search_key(t, m[1].st, "l", v) == Status::OK && v == "1", "a storage keeps its records");
        must_commit(t);
    }
    for (int i = 0; what == 2 && i < 2; i++) {
        SequenceVersion ver{};
        SequenceValue val{};
        sx_assert(read_sequence(q[i], &ver, &val) == Status::OK && ver == 2 && val == 10 + i, "a sequence keeps its value");
    }
    for (int i = 0; i < NN; i++) { if (m[i].live) { put(i); sx_witness(1); } }
    create(0, false);
    look();
    contents();
    SequenceId q2{};
    sx_assert(leave(t) == Status::OK && create_sequence(&q2) == Status::OK, "create_sequence");
    if (what == 2) { sx_assert(q2 != q[0] && q2 != q[1], "a new sequence has an identifier of its own"); }
    no_log_errors();
    sx_witness(0);
}
#endif
