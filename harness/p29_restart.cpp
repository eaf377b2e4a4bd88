// P29: starting and stopping can be repeated; nothing of the earlier life is left.
#include "common.h"
#ifdef PWAL
#include "limestone/api/datastore.h"
#endif
#include "shirakami/transaction_state.h"
using namespace hx;

namespace {
int told, durable_told;
std::vector<int> asked(4);
TxStateHandle hd;
SequenceId seq;
Token tk[4];

void get_all(Token t, Storage s, std::vector<std::pair<std::string, std::string>>& out) {
    out.clear();
    ScanHandle h{};
    Status rc = open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
    if (rc == Status::WARN_NOT_FOUND) { return; }
    sx_assert(rc == Status::OK, "opening a scan");
    do {
        std::string k, v;
        sx_assert(read_key_from_scan(t, h, k) == Status::OK, "reading the key");
        sx_assert(read_value_from_scan(t, h, v) == Status::OK, "reading the value");
        out.emplace_back(k, v);
        rc = next(t, h);
    } while (rc == Status::OK);
    sx_assert(rc == Status::WARN_SCAN_LIMIT, "the scan ends");
    sx_assert(close_scan(t, h) == Status::OK, "closing the scan");
}

// what is under way when the database is stopped
enum left : std::uint64_t { QUIET, STX, STX_SCAN, LTX, LTX_EARLY, LTX_WAIT, LTX_WAIT2, LTX_WAIT3, RO, GARBAGE, DROPPED, STATE, LISTENER, NLEFT };

void live(std::uint64_t what) {
    for (auto& t : tk) { t = nullptr; }
    Storage s = make_storage("s");
    Storage u = make_storage("t");
    sx_assert(create_sequence(&seq) == Status::OK, "create_sequence");
    for (auto& t : tk) { t = open_session(); }
    put1(tk[0], s, "a", "1");
    put1(tk[0], s, "b", "a value longer than what fits beside the length");
    put1(tk[0], u, "a", "1");
    begin_short(tk[0]);
    sx_assert(update_sequence(tk[0], seq, 1, 7) == Status::OK, "update_sequence");
    must_commit(tk[0]);
    told = durable_told = 0;
    asked.assign(4, 0);
    auto ask = [](std::size_t i) {
        return [i](Status rc, reason_code, durability_marker_type) {
            asked[i]++;
            sx_assert(rc != Status::OK, "a commit that could not be decided is not reported as done");
        };
    };
    switch (what) {
    case STX:
    case STX_SCAN:
        begin_short(tk[1]);
        sx_assert(upsert(tk[1], s, "a", "2") == Status::OK, "writing");
        sx_assert(insert(tk[1], s, "c", "2") == Status::OK, "writing");
        if (what == STX_SCAN) {
            ScanHandle h{};
            sx_assert(open_scan(tk[1], u, "", scan_endpoint::INF, "", scan_endpoint::INF, h) == Status::OK, "opening a scan");
        }
        break;
    case LTX:
    case LTX_EARLY:
        begin_long(tk[1], {s}, what == LTX);
        if (what == LTX) {
            std::string v;
            sx_assert(search_key(tk[1], u, "a", v) == Status::OK, "reading");
            sx_assert(insert(tk[1], s, "c", "2") == Status::OK, "writing");
        }
        break;
    case LTX_WAIT:
    case LTX_WAIT2: {
        begin_long(tk[1], {s});
        begin_long(tk[2], {u});
        std::string v;
        sx_assert(search_key(tk[2], s, "a", v) == Status::OK, "reading");
        sx_assert(upsert(tk[2], u, "a", "2") == Status::OK, "writing");
        if (what == LTX_WAIT2) {
            // one more that the end of the third lets go
            begin_long(tk[3], {});
            sx_assert(search_key(tk[3], s, "a", v) == Status::OK, "reading");
            sx_assert(!commit(tk[3], ask(3)), "waits for the first");
        }
        sx_assert(!commit(tk[2], ask(2)), "waits for the first");
        break;
    }
    case LTX_WAIT3: {
        // of two waiting ones one was decided already
        begin_long(tk[1], {s});
        begin_long(tk[2], {});
        begin_long(tk[0], {u});
        begin_long(tk[3], {});
        std::string v;
        sx_assert(search_key(tk[2], s, "a", v) == Status::OK, "reading");
        sx_assert(search_key(tk[3], u, "a", v) == Status::OK, "reading");
        sx_assert(!commit(tk[2], ask(2)), "waits for the first");
        int n = 0;
        sx_assert(!commit(tk[3], [&n](Status rc, reason_code, durability_marker_type) { n += rc == Status::OK ? 1 : 2; }), "waits for the third");
        sx_tick();
        sx_assert(commit(tk[0]) == Status::OK && n == 0, "waits for nobody");
        sx_tick();
        sx_tick();
        sx_assert(n == 1, "the fourth is decided");
        break;
    }
    case RO: {
        begin_ro(tk[1]);
        std::string v;
        sx_assert(search_key(tk[1], s, "a", v) == Status::OK, "reading");
        break;
    }
    case GARBAGE:
        begin_ro(tk[1]);
        put1(tk[0], s, "a", "2");
        del1(tk[0], s, "b");
        sx_tick();
        put1(tk[0], s, "a", "3");
        break;
    case DROPPED:
        sx_assert(leave(tk[3]) == Status::OK, "leaving"); // the engine takes a session for this
        sx_assert(delete_storage(u) == Status::OK, "delete_storage");
        break;
    case STATE:
        begin_short(tk[1]);
        sx_assert(acquire_tx_state_handle(tk[1], hd) == Status::OK, "taking a state handle");
        break;
    case LISTENER:
        register_durability_callback([](durability_marker_type) { durable_told++; });
        break;
    default: break;
    }
}
// a database nobody used before
void check_new(std::uint64_t what, bool recovered) {
    std::vector<std::string> l;
    list_storage(l);
    Storage s{};
    Token a = open_session();
    std::vector<std::pair<std::string, std::string>> rows;
    if (!recovered) {
        sx_assert(l.empty(), "no storage is left");
        sx_assert(get_storage("s", s) == Status::WARN_NOT_FOUND, "no storage is left");
        SequenceVersion sv{};
        SequenceValue val{};
        sx_assert(read_sequence(seq, &sv, &val) == Status::WARN_NOT_FOUND, "no sequence is left");
        s = make_storage("s");
        begin_short(a);
        get_all(a, s, rows);
        sx_assert(rows.empty(), "a new storage is empty");
        must_commit(a);
    } else {
        sx_assert(get_storage("s", s) == Status::OK, "the storage is recovered");
        begin_short(a);
        get_all(a, s, rows);
        must_commit(a);
        sx_assert(rows.size() == (what == GARBAGE ? 1 : 2) && rows[0].first == "a" && rows[0].second == (what == GARBAGE ? "3" : "1"), "the committed records are recovered, nothing else");
        SequenceVersion sv{};
        SequenceValue val{};
        sx_assert(read_sequence(seq, &sv, &val) == Status::OK && sv == 1 && val == 7, "the sequence is recovered");
        Storage u{};
        sx_assert(get_storage("t", u) == (what == DROPPED ? Status::WARN_NOT_FOUND : Status::OK), "the storages are recovered");
    }
    if (what == STATE) {
        TxState ts{};
        sx_assert(check_tx_state(hd, ts) == Status::WARN_INVALID_HANDLE, "the handle ended with the earlier life");
    }
    Storage u = make_storage("u");
    // every session can be had, with nothing running
    Token b = open_session();
    Token c = open_session();
    Token d = open_session();
    Token e{};
    sx_assert(enter(e) == Status::ERR_SESSION_LIMIT, "four sessions, not more");
    std::string v;
    for (Token t : {a, b, c, d}) {
        sx_assert(search_key(t, s, "a", v) == Status::WARN_NOT_BEGIN, "no transaction is left");
        sx_assert(commit(t) == Status::WARN_NOT_BEGIN, "no transaction is left");
    }
    // transactions of every kind are as free as ever
    for (int round = 0; round < (what == LTX_WAIT3 ? 3 : 1); round++) {
        put1(a, s, "a", "5");
        put1(a, u, "a", "5");
        begin_long(a, {s});
        begin_long(b, {u});
        begin_ro(d);
        sx_assert(upsert(a, s, "a", "6") == Status::OK, "writing");
        sx_assert(search_key(b, s, "a", v) == Status::OK && v == "5", "reading");
        sx_assert(upsert(b, u, "a", "6") == Status::OK, "writing");
        int n = 0;
        Status got{};
        bool done = commit(b, [&n, &got](Status rc, reason_code, durability_marker_type) { n++; got = rc; });
        sx_assert(!done && n == 0, "waits for the older one");
        begin_short(c);
        sx_assert(upsert(c, u, "b", "7") == Status::WARN_CONFLICT_ON_WRITE_PRESERVE || abort(c) == Status::OK, "the reservation holds");
        sx_assert(commit(a) == Status::OK, "the older one waits for nobody");
        sx_tick();
        sx_tick();
        sx_assert(n == 1 && got == Status::OK, "the waiting one is decided");
        sx_assert(search_key(d, s, "a", v) == Status::OK && v == "5", "the snapshot");
        must_commit(d);
    }
    sx_tick();
    put1(c, s, "a", "8");
    begin_short(c);
    sx_assert(search_key(c, s, "a", v) == Status::OK && v == "8", "reading");
    sx_assert(search_key(c, u, "a", v) == Status::OK && v == "6", "reading");
    must_commit(c);
    begin_ro(d);
    sx_assert(search_key(d, s, "a", v) == Status::OK && v == "8", "the snapshot moves on");
    must_commit(d);
    for (Token t : {a, b, c, d}) { sx_assert(leave(t) == Status::OK, "leaving"); }
}
void stop(std::uint64_t what, bool force) {
    std::size_t before = sx_bg_count();
    sx_assert(before > 0, "there is background activity");
    fin(force);
    sx_assert(sx_bg_count() == 0, "every background activity ended");
    for (std::size_t i = 0; i < 4; i++) {
        bool want = (i == 2 && (what == LTX_WAIT || what == LTX_WAIT2 || what == LTX_WAIT3)) || (i == 3 && what == LTX_WAIT2);
        sx_assert(asked[i] == (want ? 1 : 0), "a waiting commit is answered, once");
    }
    int d = durable_told;
    fin(force);
    sx_assert(sx_bg_count() == 0 && durable_told == d, "stopping again does nothing");
}
} // namespace

// any leftover, then a new life
extern "C" void h_restart() {
    auto what = sx_choose(NLEFT, "left");
    bool force = sx_choose(2, "force") != 0;
    bool recover = false;
#ifdef PWAL
    recover = !force && sx_choose(2, "recover") != 0;
#endif
    fin(force);
    open_db();
    sx_assert(init(db_options()) == Status::WARN_ALREADY_INIT, "already running");
    live(what);
    sx_assert(init(db_options()) == Status::WARN_ALREADY_INIT, "already running");
    std::string v;
    begin_short(tk[0]);
    sx_assert(commit(tk[0]) == Status::OK, "a refused init changes nothing");
    stop(what, force);
    sx_assert(init(database_options(database_options::open_mode::MAINTENANCE)) == Status::ERR_INVALID_CONFIGURATION, "this mode is not supported");
    sx_assert(sx_bg_count() == 0, "a refused init starts nothing");
#ifdef PWAL
    if (!recover) { sx_log_reset(); }
#endif
    int d = durable_told;
    sx_assert(init(db_options(recover ? database_options::open_mode::RESTORE : database_options::open_mode::CREATE)) == Status::OK, "starting again");
    sx_tick();
    sx_tick();
    check_new(what, recover);
    sx_assert(durable_told == d, "a listener of the earlier life is not told anything");
    asked.assign(4, 0);
    stop(QUIET, force);
    no_log_errors();
    sx_witness(0);
    if (asked[2] + asked[3] == 0) { sx_witness(1); }
}

// the same life again and again takes no more memory
extern "C" void h_leak() {
    auto what = sx_choose(NLEFT, "left");
    std::size_t n[3];
    for (auto& e : n) {
#ifdef PWAL
        sx_log_reset();
#endif
        open_db();
        live(what);
        stop(what, false);
        asked.clear();
        asked.shrink_to_fit();
        e = sx_live;
        asked.assign(4, 0);
    }
    sx_note("live 0", n[0]);
    sx_note("live 1", n[1]);
    sx_note("live 2", n[2]);
    sx_assert(n[2] == n[1], "stopping frees everything that was created");
    no_log_errors();
    sx_witness(0);
}

#ifdef PWAL
extern bool sx_fs_exists;
extern unsigned sx_fs_removed;
extern std::string sx_fs_last;
// where the log is: a directory of the user, one of the engine's own, or in the hands of the caller
extern "C" void h_logdir() {
    for (int i = 0; i < 2; i++) {
        auto where = sx_choose(3, "where");
        auto mode = sx_choose(2, "mode") != 0 ? database_options::open_mode::RESTORE : database_options::open_mode::CREATE;
        bool force = sx_choose(2, "force") != 0;
        auto o = db_options(mode);
        sx_fs_exists = sx_choose(2, "exists") != 0;
        std::filesystem::path p{std::string(where == 0 ? "/sx/user" : "")};
        o.set_log_directory_path(p);
        void* ds = nullptr;
        if (where == 2) {
            limestone::api::configuration c{};
            ds = new limestone::api::datastore(c);
        }
        sx_fs_removed = 0;
        sx_assert(init(o, ds) == Status::OK, "starting");
        if (sx_fs_exists && mode == database_options::open_mode::RESTORE) { sx_assert(sx_fs_removed == 0, "recovering removes nothing"); }
        sx_fs_removed = 0;
        sx_tick();
        Storage s{};
        Status rc = create_storage(i == 0 ? "s" : "t", s);
        sx_assert(rc == Status::OK, "create_storage");
        Token t = open_session();
        put1(t, s, "a", "1");
        sx_assert(leave(t) == Status::OK, "leaving");
        fin(force);
        if (where == 1) {
            sx_assert(sx_fs_removed == 1, "the engine's own log directory goes with it");
            sx_assert(sx_fs_last.rfind("/tmp/shirakami-", 0) == 0, "nothing but the engine's own directory is removed");
            sx_witness(0);
        } else {
            sx_assert(sx_fs_removed == 0, "the log of the user stays");
            sx_witness(1);
        }
        if (where == 2) { delete static_cast<limestone::api::datastore*>(ds); }
    }
    no_log_errors();
    sx_witness(2);
}
#endif
