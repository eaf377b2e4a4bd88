// P15: what is there after a crash at any moment.
#include "hist.h"
using namespace hist;

namespace {
// every transaction writes one value, or deletes, in two storages
struct txn {
    Token t{};
    tt kind{tt::SHORT};
    int val{0}; // -1: deletes
    int at{0};
    tx_state st{RUN};
    bool before{false}; // its end was reported before the crash
    durability_marker_type dm{0};
    int calls{0};
};
txn x[2];
Token reader;
bool crashed;
std::uint64_t durable, reported;
Storage s[2];
int value0;

void listen() {
    reported = 0;
    sx_assert(register_durability_callback([](durability_marker_type m) {
        sx_assert(m >= reported, "the durable epoch only grows");
        reported = m;
    }) == Status::OK, "listening");
}
void setup(int n) {
    open_db();
    s[0] = make_storage("s");
    s[1] = make_storage("t");
    reader = open_session();
    for (int i = 0; i < n; i++) { x[i] = txn{}; x[i].t = open_session(); }
    begin_short(reader);
    for (auto st : s) { sx_assert(upsert(reader, st, "a", "0") == Status::OK, "fill"); }
    must_commit(reader);
    for (int i = 0; i < 3; i++) { sx_tick(); }
    crashed = false;
    value0 = 0;
    listen();
}
void freeze() {
    if (crashed) { return; }
    crashed = true;
    sx_log_freeze();
    durable = sx_log_durable();
    sx_assert(reported <= durable, "nothing is reported durable before it is");
}
void restart(bool tick = true) {
    freeze();
    fin(true);
    sx_assert(sx_log_thaw() == durable, "harness: durable epoch");
    sx_assert(init(db_options(database_options::open_mode::RESTORE)) == Status::OK, "restart");
    if (tick) { sx_tick(); }
    sx_assert(get_storage("s", s[0]) == Status::OK && get_storage("t", s[1]) == Status::OK, "the storages are back");
    reader = open_session();
}
int look(Token t, Storage st, const char* k = "a") {
    std::string b;
    Status rc = search_key(t, st, k, b);
    sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "reading");
    return rc != Status::OK ? -1 : b.size() == 1 ? b[0] - '0' : -2;
}
// the value in both storages
int both() {
    begin_short(reader);
    int a = look(reader, s[0]), b = look(reader, s[1]);
    must_commit(reader);
    sx_note("contents", static_cast<std::uint64_t>(a));
    sx_assert(a == b, "no transaction survives in part");
    return a;
}
Status write(txn& y, int place) {
    char c = code(y.val);
    if (y.val < 0) {
        Status rc = delete_record(y.t, s[place], "a");
        return rc == Status::WARN_NOT_FOUND ? Status::OK : rc;
    }
    return upsert(y.t, s[place], "a", {&c, 1});
}
void request(txn& y) {
    y.st = WAIT;
    commit(y.t, [&y](Status rc, reason_code, durability_marker_type m) {
        sx_assert(y.calls++ == 0, "one end");
        y.st = rc == Status::OK ? COM : ABO;
        y.dm = m;
        y.before = !crashed;
    });
}
bool survives(txn const& y) { return y.st == COM && y.before && y.dm <= durable; }
// one step of a transaction
void step(txn& y) {
    switch (y.at++) {
        case 0:
            if (y.kind == tt::LONG) { begin_long(y.t, {s[0], s[1]}); } else { begin_short(y.t); }
            break;
        case 1:
        case 2: {
            Status rc = write(y, y.at - 2);
            if (rc == Status::WARN_CONFLICT_ON_WRITE_PRESERVE) { sx_assert(abort(y.t) == Status::OK, "abort"); y.st = ABO; break; }
            sx_assert(rc == Status::OK || is_error(rc), "writing");
            if (is_error(rc)) { y.st = ABO; }
            break;
        }
        default:
            if (y.kind == tt::LONG && sx_choose(2, "abort") != 0) { sx_assert(abort(y.t) == Status::OK, "abort"); y.st = ABO; }
            else { request(y); }
    }
}
} // namespace

// two transactions, stopped after any step
extern "C" void h_crash() {
    setup(2);
    x[0].kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    x[1].kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    x[0].val = sx_choose(2, "delete") != 0 ? -1 : 1;
    x[1].val = 2;
    int live = 0;
    bool both_done = false;
    while (!crashed) {
        bool r0 = x[0].st == RUN, r1 = x[1].st == RUN;
        if (sx_choose(r0 || r1 ? 2 : 1, "go on") == 0) { break; }
        txn& y = x[r0 && (!r1 || sx_choose(2, "who") != 0) ? 0 : 1];
        step(y);
        if (SX_TIER == 0 && y.at == 2 && y.st == RUN) { step(y); }
        if (sx_choose(2, "tick") != 0) { sx_tick(); }
    }
    for (auto n = sx_choose(3, "ticks"); n > 0; n--) { sx_tick(); }
    if (x[0].st == COM && x[1].st == COM) {
        both_done = true;
        live = both();
    }
    restart();
    bool a = survives(x[0]), b = survives(x[1]);
    int got = both();
    if (a && b) { sx_assert(both_done && got == live, "all durable: the contents are those before"); sx_witness(1); }
    else { sx_assert(got == (a ? x[0].val : b ? x[1].val : 0), "exactly the durable ones are there"); }
    if (!a && x[0].st == COM) { sx_witness(2); }
    sx_assert(sx_log_bad_use == 0, "entries are written inside a log session");
    no_log_errors();
    sx_witness(0);
}

// one transaction in each of several lives
extern "C" void h_crash_again() {
    setup(0);
    int now = 0;
    for (int life = 1; life <= (SX_TIER == 0 ? 2 : 3); life++) {
        x[0] = txn{};
        txn& z = x[0];
        z.t = open_session();
        z.kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
        z.val = sx_choose(2, "delete") != 0 ? -1 : life;
        step(z);
        // the first tick of a life starts the epoch thread
        if (z.kind == tt::LONG && life > 1) { sx_tick(); }
        step(z);
        step(z);
        request(z);
        sx_assert(z.st == COM, "committed");
        sx_note("marker", z.dm);
        sx_note("reported", reported);
        sx_assert(z.dm > reported, "not durable before an epoch passed");
        if (sx_choose(2, "leave") != 0) { sx_assert(leave(z.t) == Status::OK, "leave"); }
        for (auto n = sx_choose(3, "ticks"); n > 0; n--) { sx_tick(); }
        restart(sx_choose(2, "quiet") != 0);
        if (survives(z)) { now = z.val; sx_witness(2); } else { sx_witness(1); }
        sx_assert(both() == now, "exactly the durable ones are there");
        crashed = false;
        listen();
    }
    sx_assert(sx_log_bad_use == 0, "entries are written inside a log session");
    no_log_errors();
    sx_witness(0);
}

// a transaction that reads from another and its epochs: never without the one it read from
namespace {
bool read_it;
unsigned order;
void c_first(void*) {
    step(x[0]);
    step(x[0]);
    step(x[0]);
    if (x[0].st == RUN) { request(x[0]); }
}
void c_second(void*) {
    begin_short(x[1].t);
    std::string b;
    Status rc = search_key(x[1].t, s[0], "a", b);
    read_it = rc == Status::OK && b == "1";
    if (rc == Status::OK) { rc = upsert(x[1].t, s[1], "b", read_it ? "1" : "0"); }
    if (is_error(rc)) { x[1].st = ABO; }
    else if (rc != Status::OK) { sx_assert(abort(x[1].t) == Status::OK, "abort"); x[1].st = ABO; }
    else { request(x[1]); }
    auto n = sx_choose(3, "ticks");
    for (unsigned i = 0; i < n; i++) { sx_tick(); }
    if (sx_choose(2, "crash") != 0) { freeze(); }
}
} // namespace
extern "C" void h_crash_race() {
    setup(2);
    x[0].kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    x[0].val = 1;
    read_it = false;
    sx_client(c_first, nullptr);
    sx_client(c_second, nullptr);
    sx_run_clients(SX_TIER == 0 ? 1 : 2);
    auto n = crashed ? 0 : sx_choose(3, "ticks");
    for (unsigned i = 0; i < n; i++) { sx_tick(); }
    restart();
    int a = both();
    begin_short(reader);
    int b = look(reader, s[1], "b");
    must_commit(reader);
    sx_assert(a == 0 || (a == 1 && x[0].st == COM), "the first one or not");
    sx_assert(b == -1 || (x[1].st == COM && b == (read_it ? 1 : 0)), "the second one or not");
    if (survives(x[0])) { sx_assert(a == 1, "durable ones are there"); sx_witness(1); }
    if (survives(x[1])) { sx_assert(b >= 0, "durable ones are there"); }
    if (b == 1) { sx_assert(a == 1, "none is there without the one it read from"); sx_witness(2); }
    no_log_errors();
    sx_witness(0);
}

// a transaction that writes a record and a sequence
namespace {
SequenceId q;
void c_both(void*) {
    step(x[0]);
    step(x[0]);
    step(x[0]);
    sx_assert(update_sequence(x[0].t, q, 1, 11) == Status::OK, "updating the sequence");
    request(x[0]);
}
void c_epochs(void*) {
    for (auto n = sx_choose(4, "ticks"); n > 0; n--) { sx_tick(); }
    if (sx_choose(2, "crash") != 0) { freeze(); }
}
} // namespace
extern "C" void h_crash_sequence() {
    setup(1);
    sx_assert(create_sequence(&q) == Status::OK, "create");
    for (int i = 0; i < 3; i++) { sx_tick(); }
    x[0].kind = sx_choose(2, "long") != 0 ? tt::LONG : tt::SHORT;
    x[0].val = 1;
    sx_client(c_both, nullptr);
    sx_client(c_epochs, nullptr);
    sx_run_clients(SX_TIER == 0 ? 1 : 2);
    auto n = crashed ? 0 : sx_choose(3, "ticks");
    for (unsigned i = 0; i < n; i++) { sx_tick(); }
    restart();
    int a = both();
    SequenceVersion ver{};
    SequenceValue val{};
    sx_assert(read_sequence(q, &ver, &val) == Status::OK, "the sequence is there");
    sx_assert((ver == 0 && val == 0) || (ver == 1 && val == 11), "a value it had");
    sx_assert((ver == 1) == (a == 1), "no transaction survives in part");
    if (survives(x[0])) { sx_assert(a == 1, "durable ones are there"); sx_witness(1); }
    no_log_errors();
    sx_witness(0);
}
