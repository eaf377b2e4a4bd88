// P10: declared read areas are enforced.
#include "common.h"
using namespace hx;

namespace {
Storage s[3];
Token l, w;
Status do_op(int op, Storage st, const char* k) {
    std::string v;
    switch (op) {
        case 0: return search_key(l, st, k, v);
        case 1: return exist_key(l, st, k);
        case 2: {
            ScanHandle h{};
            Status rc = open_scan(l, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
            if (rc != Status::OK) { return rc; }
            rc = read_value_from_scan(l, h, v);
            close_scan(l, h);
            return rc;
        }
        case 3: return insert(l, st, k, "9");
        case 4: return update(l, st, k, "9");
        case 5: return delete_record(l, st, k);
        default: return upsert(l, st, k, "9");
    }
}
std::set<Storage> pick(std::uint64_t m) {
    std::set<Storage> v;
    for (unsigned i = 0; i < 3; i++) { if ((m >> i & 1U) != 0) { v.insert(s[i]); } }
    return v;
}
} // namespace

// every declaration, two operations
extern "C" void h_area() {
    open_db();
    s[0] = make_storage("r");
    s[1] = make_storage("s");
    s[2] = make_storage("t");
    l = open_session();
    w = open_session();
    for (auto st : s) { put1(w, st, "a", "0"); }
    sx_tick();
    auto inc = sx_choose(8, "inclusive"), exc = sx_choose(8, "exclusive");
    // a transaction before it on the same session must not matter
    if (sx_choose(2, "used before") != 0) {
        sx_assert(tx_begin({l, tt::LONG, {}, {pick(7 & ~inc), pick(inc)}}) == Status::OK, "begin");
        sx_assert(abort(l) == Status::OK, "abort");
    }
    sx_assert(tx_begin({l, tt::LONG, {s[0], s[1]}, {pick(inc), pick(exc)}}) == Status::OK, "begin");
    sx_tick();
    sx_tick();
    bool ended = false;
    bool changed[3] = {};
    for (int n = 0; n < 2 && !ended; n++) {
        auto at = static_cast<unsigned>(sx_choose(3, "storage"));
        int op = static_cast<int>(sx_choose(at == 2 ? 3 : 7, "operation"));
        bool may = (inc == 0 || (inc >> at & 1U) != 0) && (exc >> at & 1U) == 0;
        Status rc = do_op(op, s[at], op == 3 ? "n" : "a");
        if (op == 6) {
            sx_assert(rc == Status::OK, "a write without reading is not bound to the area");
            changed[at] = true;
        } else if (may) {
            sx_assert(rc != Status::ERR_READ_AREA_VIOLATION, "a read inside the area is not refused");
            bool again = op == 3 && rc == Status::WARN_ALREADY_EXISTS;
            bool gone = (op <= 2 || op >= 4) && rc == Status::WARN_NOT_FOUND && changed[at];
            bool cancel = op == 5 && (rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT);
            sx_assert(rc == Status::OK || again || gone || cancel, "a read inside the area succeeds");
            if (op >= 3) { changed[at] = true; }
            sx_witness(0);
        } else {
            sx_assert(rc == Status::ERR_READ_AREA_VIOLATION, "a read outside the area is refused as a violation");
            auto ri = transaction_result_info(l);
            sx_assert(ri != nullptr && ri->get_reason_code() == reason_code::CC_LTX_READ_AREA_VIOLATION, "with its reason");
            ended = true;
            sx_witness(1);
        }
    }
    std::string v;
    if (ended) {
        sx_assert(search_key(l, s[0], "a", v) == Status::WARN_NOT_BEGIN, "a violation ends the transaction");
        sx_assert(commit(l) == Status::WARN_NOT_BEGIN, "it cannot be committed");
    } else {
        must_commit(l);
    }
    begin_short(w);
    for (unsigned i = 0; i < 3; i++) {
        if (!ended && changed[i]) { continue; }
        sx_assert(search_key(w, s[i], "a", v) == Status::OK && v == "0", "nothing of an ended transaction stays");
        sx_assert(search_key(w, s[i], "n", v) == Status::WARN_NOT_FOUND, "nothing of an ended transaction stays");
    }
    must_commit(w);
    no_log_errors();
}
