// P27: result information and the names of the codes.
#include <sstream>
#include "common.h"
#include "concurrency_control/include/session.h"
#include "storage.h"
#include "shirakami/api_result.h"
#include "shirakami/log_record.h"
using namespace hx;

namespace {
struct named { std::int64_t v; const char* n; };
#define N(x) {static_cast<std::int64_t>(E::x), #x}
template<class E> struct names;
template<> struct names<Status> {
    using E = Status;
    static inline const named tab[] = {N(WARN_ALREADY_BEGIN), N(WARN_ALREADY_EXISTS), N(WARN_ALREADY_INIT), N(WARN_CANCEL_PREVIOUS_INSERT), N(WARN_CANCEL_PREVIOUS_UPSERT), N(WARN_CONCURRENT_INSERT), N(WARN_CONCURRENT_UPDATE), N(WARN_CONFLICT_ON_WRITE_PRESERVE), N(WARN_ILLEGAL_OPERATION), N(WARN_INVALID_ARGS), N(WARN_INVALID_HANDLE), N(WARN_INVALID_KEY_LENGTH), N(WARN_MAX_OPEN_SCAN), N(WARN_NOT_BEGIN), N(WARN_NOT_FOUND), N(WARN_NOT_IN_A_SESSION), N(WARN_NOT_INIT), N(WARN_PREMATURE), N(WARN_SCAN_LIMIT), N(WARN_STORAGE_ID_DEPLETION), N(WARN_STORAGE_NOT_FOUND), N(WARN_WAITING_FOR_OTHER_TX), N(WARN_WRITE_WITHOUT_WP), N(OK), N(ERR_CC), N(ERR_FATAL), N(ERR_FATAL_INDEX), N(ERR_INVALID_CONFIGURATION), N(ERR_KVS), N(ERR_READ_AREA_VIOLATION), N(ERR_NOT_IMPLEMENTED), N(ERR_SESSION_LIMIT), N(INTERNAL_BEGIN), N(INTERNAL_WARN_CONCURRENT_INSERT), N(INTERNAL_WARN_NOT_DELETED), N(INTERNAL_WARN_NOT_FOUND), N(INTERNAL_WARN_PREMATURE)};
};
template<> struct names<reason_code> {
    using E = reason_code;
    static inline const named tab[] = {N(UNKNOWN), N(KVS_DELETE), N(KVS_INSERT), N(KVS_UPDATE), N(CC_LTX_PHANTOM_AVOIDANCE), N(CC_LTX_READ_AREA_VIOLATION), N(CC_LTX_READ_UPPER_BOUND_VIOLATION), N(CC_LTX_WRITE_COMMITTED_READ_PROTECTION), N(CC_OCC_WP_VERIFY), N(CC_OCC_READ_VERIFY), N(CC_OCC_PHANTOM_AVOIDANCE), N(USER_ABORT)};
};
template<> struct names<TxState::StateKind> {
    using E = TxState::StateKind;
    static inline const named tab[] = {N(UNKNOWN), N(WAITING_START), N(STARTED), N(WAITING_CC_COMMIT), N(ABORTED), N(WAITING_DURABLE), N(DURABLE)};
};
template<> struct names<log_operation> {
    using E = log_operation;
    static inline const named tab[] = {N(UNKNOWN), N(INSERT), N(UPDATE), N(DELETE), N(UPSERT), N(ADD_STORAGE), N(REMOVE_STORAGE)};
};
template<> struct names<OP_TYPE> {
    using E = OP_TYPE;
    static inline const named tab[] = {N(ABORT), N(BEGIN), N(COMMIT), N(DELETE), N(INSERT), N(NONE), N(SCAN), N(SEARCH), N(UPDATE), N(UPSERT)};
};
template<> struct names<scan_endpoint> {
    using E = scan_endpoint;
    static inline const named tab[] = {N(EXCLUSIVE), N(INCLUSIVE), N(INF)};
};
bool eq(std::string_view a, std::string_view b) { return a == b; }
template<class E> bool member(std::int64_t v) {
    bool r = false;
    for (auto& e : names<E>::tab) { r = r | (e.v == v); }
    return r;
}
template<class E> void check_names() {
    auto a = static_cast<std::int64_t>(sx_u64(64, "code"));
    auto b = static_cast<std::int64_t>(sx_u64(64, "other"));
    sx_assume(member<E>(a) & member<E>(b));
    auto na = to_string_view(static_cast<E>(a));
    auto nb = to_string_view(static_cast<E>(b));
    sx_assert(!na.empty(), "every code has a name");
    sx_assert((a == b) == eq(na, nb), "every code has a name of its own");
    for (auto& e : names<E>::tab) {
        if (e.v == a) { sx_assert(eq(na, e.n), "a code prints under its own name"); }
    }
    std::ostringstream o;
    o << static_cast<E>(a);
    sx_assert(eq(o.str(), na), "printing a code prints its name");
    sx_witness(0);
}
} // namespace

extern "C" void h_names() {
    switch (sx_choose(6, "type")) {
        case 0: check_names<Status>(); break;
        case 1: check_names<reason_code>(); break;
        case 2: check_names<TxState::StateKind>(); break;
        case 3: check_names<log_operation>(); break;
        case 4: check_names<OP_TYPE>(); break;
        default: check_names<scan_endpoint>(); break;
    }
}

// the information object itself: every short sequence of changes
extern "C" void h_info() {
    storage::key_handle_map_clear();
    sx_assert(storage::key_handle_map_push_storage("one", 11) == Status::OK, "register a name");
    sx_assert(storage::key_handle_map_push_storage("two", 22) == Status::OK, "register a name");
    result_info i;
    reason_code rc = reason_code::UNKNOWN;
    bool hk = false, hs = false, kknown = true;
    std::string k, s;
    for (int n = 0; n < (SX_TIER ? 4 : 3); n++) {
        char b[2];
        switch (sx_choose(7, "op")) {
            case 0:
                rc = static_cast<reason_code>(sx_choose(12, "reason"));
                i.set_reason_code(rc);
                if (rc == reason_code::UNKNOWN) { k = ""; kknown = false; }
                break;
            case 1: sx_bytes(b, 2, "key"); k = std::string(b, 2); hk = kknown = true; i.set_key(k); break;
            case 2: sx_bytes(b, 2, "name"); s = std::string(b, 2); hs = true; i.set_storage_name(std::string_view(s)); break;
            case 3: {
                Storage st = sx_u64(64, "storage");
                if (st == 11) { s = "one"; hs = true; } else if (st == 22) { s = "two"; hs = true; }
                i.set_storage_name(st);
                break;
            }
            case 4: sx_bytes(b, 2, "key"); k = std::string(b, 2); hk = kknown = hs = true; s = "two"; i.set_key_storage_name(k, 22); break;
            case 5: i.clear(); rc = reason_code::UNKNOWN; hk = hs = false; kknown = true; k = s = ""; break;
            default: { result_info c(i); i = result_info(reason_code::KVS_INSERT); i = c; break; }
        }
        sx_assert(i.get_reason_code() == rc, "the reason is the one set last");
        sx_assert(i.get_has_storage_name_info() == hs && eq(i.get_storage_name(), s), "the storage is the one set last");
        if (kknown) { sx_assert(i.get_has_key_info() == hk, "a key is present when it was set"); }
        sx_assert(eq(i.get_key(), k), "the key is the one set last");
        hk = i.get_has_key_info();
    }
    std::ostringstream o;
    o << i;
    std::ostringstream w;
    w << "reason_code:" << to_string_view(rc);
    if (hs) { w << ", storage_name:" << binary_printer(s); } else { w << ", storage_name is not available"; }
    if (hk) { w << ", key(len=" << k.size() << "):" << binary_printer(k); } else { w << ", no key information"; }
    sx_assert(eq(o.str(), w.str()), "the printed information names reason, storage and key");
    sx_witness(0);
}

namespace {
Storage st[2];
const char* st_name[2] = {"one", "two"};
Token T, W, L;
struct seen { Status rc; reason_code r; };
void put_w(Storage s, std::string_view k) { begin_short(W); sx_assert(upsert(W, s, k, "w") == Status::OK, "upsert"); must_commit(W); }

// result information must name exactly this
void expect(reason_code r, bool key, std::string_view k, bool stn, const char* sname, bool exact = true) {
    auto i = transaction_result_info(T);
    sx_assert(i->get_reason_code() == r, "the reason of the refusal is reported");
    if (key) { sx_assert(i->get_has_key_info() && eq(i->get_key(), k), "the key concerned is reported"); }
    else if (exact) { sx_assert(i->get_key().empty(), "no key of something else is reported"); }
    if (stn) { sx_assert(i->get_has_storage_name_info() && eq(i->get_storage_name(), sname), "the storage concerned is reported"); }
    else if (exact) { sx_assert(!i->get_has_storage_name_info(), "no storage of something else is reported"); }
}
void cause(unsigned c, unsigned s, std::string const& k) {
    Storage S = st[s], O = st[1 - s];
    std::string b;
    Status rc;
    switch (c) {
        case 0: // lost an insert
            begin_short(T);
            sx_assert(insert(T, S, k + "new", "t") == Status::OK, "insert");
            put_w(S, k + "new");
            rc = commit(T);
            sx_assert(rc == Status::ERR_KVS || rc == Status::ERR_CC, "refused");
            if (rc == Status::ERR_KVS) { expect(reason_code::KVS_INSERT, true, k + "new", true, st_name[s]); }
            del1(W, S, k + "new");
            break;
        case 1: case 2: // lost the record to be written
            begin_short(T);
            sx_assert((c == 1 ? update(T, S, k, "t") : delete_record(T, S, k)) == Status::OK, "write");
            del1(W, S, k);
            rc = commit(T);
            sx_assert(rc == Status::ERR_KVS, "refused");
            expect(c == 1 ? reason_code::KVS_UPDATE : reason_code::KVS_DELETE, true, k, true, st_name[s]);
            put_w(S, k);
            break;
        case 3: // read something overwritten
            begin_short(T);
            sx_assert(search_key(T, S, k, b) == Status::OK, "read");
            sx_assert(search_key(T, O, "y", b) == Status::OK, "read");
            put_w(S, k);
            sx_assert(commit(T) == Status::ERR_CC, "refused");
            expect(reason_code::CC_OCC_READ_VERIFY, true, k, true, st_name[s]);
            break;
        case 4: // missed a key that appeared
            begin_short(T);
            sx_assert(search_key(T, S, "nokey", b) == Status::WARN_NOT_FOUND, "read");
            sx_assert(upsert(T, O, "y", "t") == Status::OK, "write");
            put_w(S, "nokey");
            sx_assert(commit(T) == Status::ERR_CC, "refused");
            expect(reason_code::CC_OCC_PHANTOM_AVOIDANCE, false, "", false, "");
            del1(W, S, "nokey");
            sx_tick(); sx_tick(); sx_tick(); sx_tick();
            break;
        case 5: // reserved storage met while reading
            begin_long(L, {S});
            begin_short(T);
            sx_assert(search_key(T, S, k, b) == Status::ERR_CC, "refused");
            expect(reason_code::CC_OCC_WP_VERIFY, false, "", false, "");
            sx_assert(abort(L) == Status::OK, "abort");
            break;
        case 6: // reserved storage met at commit
            begin_short(T);
            sx_assert(search_key(T, S, k, b) == Status::OK, "read");
            begin_long(L, {S});
            sx_assert(commit(T) == Status::ERR_CC, "refused");
            expect(reason_code::CC_OCC_WP_VERIFY, false, "", false, "");
            sx_assert(abort(L) == Status::OK, "abort");
            break;
        case 7: { // given up by the user
            unsigned kind = sx_choose(3, "kind");
            if (kind == 0) { begin_short(T); } else if (kind == 1) { begin_long(T, {S}); } else { begin_ro(T); }
            if (kind != 2) { sx_assert(upsert(T, S, k, "t") == Status::OK, "write"); }
            sx_assert(abort(T) == Status::OK, "abort");
            expect(reason_code::USER_ABORT, false, "", false, "");
            break;
        }
        case 8: case 9: // read outside the declared area
            sx_assert(tx_begin({T, tt::LONG, {S}, {{O}, {}}}) == Status::OK, "begin");
            sx_tick(); sx_tick();
            if (c == 8) { rc = search_key(T, S, k, b); }
            else { ScanHandle h{}; rc = open_scan(T, S, "", scan_endpoint::INF, "", scan_endpoint::INF, h); }
            sx_assert(rc == Status::ERR_READ_AREA_VIOLATION, "refused");
            expect(reason_code::CC_LTX_READ_AREA_VIOLATION, false, "", true, st_name[s]);
            break;
        case 10: // forwarding would break an own read
            begin_long(L, {S});
            put_w(O, k);
            sx_tick(); sx_tick();
            begin_long(T, {O});
            sx_assert(search_key(T, O, k, b) == Status::OK, "read");
            sx_assert(search_key(T, S, k, b) == Status::OK, "read");
            sx_assert(upsert(L, S, k, "l") == Status::OK, "write");
            must_commit(L);
            sx_assert(upsert(T, O, k, "t") == Status::OK, "write");
            sx_assert(commit(T) == Status::ERR_CC, "refused");
            expect(reason_code::CC_LTX_READ_UPPER_BOUND_VIOLATION, false, "", false, "");
            break;
        case 11: case 12: // forwarding would break a committed read
            begin_long(L, {S});
            begin_short(W);
            if (c == 11) { sx_assert(search_key(W, O, k, b) == Status::OK, "read"); }
            else { sx_assert(search_key(W, O, k + "miss", b) == Status::WARN_NOT_FOUND, "read"); }
            must_commit(W);
            sx_tick(); sx_tick();
            begin_long(T, {O});
            sx_assert(search_key(T, S, k, b) == Status::OK, "read");
            sx_assert(upsert(L, S, k, "l") == Status::OK, "write");
            must_commit(L);
            if (c == 11) { sx_assert(update(T, O, k, "t") == Status::OK, "write"); }
            else { sx_assert(insert(T, O, k + "miss", "t") == Status::OK, "write"); }
            sx_assert(commit(T) == Status::ERR_CC, "refused");
            if (c == 11) { expect(reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION, true, k, true, st_name[1 - s]); }
            else { expect(reason_code::CC_LTX_PHANTOM_AVOIDANCE, true, k + "miss", true, st_name[1 - s]); }
            break;
        default: // unknown storage among the reservations: refused at begin
            sx_assert(tx_begin({T, tt::LONG, {st[s], 987654321}}) == Status::WARN_INVALID_ARGS, "refused");
            expect(reason_code::UNKNOWN, false, "", false, "", false);
            break;
    }
    sx_witness(c);
}
} // namespace

extern "C" void h_causes() {
    open_db();
    st[0] = make_storage(st_name[0]);
    st[1] = make_storage(st_name[1]);
    T = open_session();
    W = open_session();
    L = open_session();
    for (auto s : st) { begin_short(W); upsert(W, s, "x", "1"); upsert(W, s, "y", "1"); must_commit(W); }
    sx_tick(); sx_tick();
    const unsigned rounds = 2;
    for (unsigned i = 0; i < rounds; i++) {
        unsigned c = sx_choose(14, "cause");
        unsigned s = i == 0 ? sx_choose(2, "storage") : sx_choose(SX_TIER ? 2 : 1, "storage");
        cause(c, s, i == 0 ? "x" : "y");
        if (i == 0 && sx_choose(2, "between") != 0) {
            // a transaction in between: its begin forgets, its success reports nothing
            std::string b;
            if (sx_choose(2, "explicit") != 0) { begin_short(T); expect(reason_code::UNKNOWN, false, "", false, ""); }
            else { begin_ro(T); sx_assert(search_key(T, st[0], "y", b) == Status::OK, "read"); expect(reason_code::UNKNOWN, false, "", false, ""); }
            must_commit(T);
            expect(reason_code::UNKNOWN, false, "", false, "");
        }
    }
    no_log_errors();
}
