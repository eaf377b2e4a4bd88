// P26: keys and values come back byte for byte.
#include "common.h"
using namespace hx;

namespace {
bool same(std::string_view a, std::string_view b) {
    if (a.size() != b.size()) { return false; }
    bool r = true;
    for (std::size_t i = 0; i < a.size(); i++) { r = r & (a[i] == b[i]); }
    return r;
}
// bytewise order, shorter first on a common prefix
bool less(std::string_view a, std::string_view b) {
    for (std::size_t i = 0; i < a.size() && i < b.size(); i++) {
        auto x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
        if (x != y) { return x < y; }
    }
    return a.size() < b.size();
}
std::string sym(std::size_t n, const char* name) {
    char b[64];
    sx_bytes(b, n, name);
    return {b, n};
}
void begin(Token t, unsigned kind, Storage st) {
    if (kind == 0) { begin_short(t); } else { begin_long(t, {st}); }
}
void write(Token t, Storage st, unsigned op, std::string const& k, std::string const& v, bool live) {
    Status rc{};
    if (op == 0) { rc = insert(t, st, k, v); if (live) { sx_assert(rc == Status::WARN_ALREADY_EXISTS, "equal keys are one record"); sx_assert(update(t, st, k, v) == Status::OK, "update"); return; } }
    else { rc = upsert(t, st, k, v); }
    sx_assert(rc == Status::OK, "any key and value can be stored");
}
void expect(Token t, Storage st, std::string const& k, std::string const& v) {
    std::string out = "junk";
    sx_assert(search_key(t, st, k, out) == Status::OK, "a stored key is found");
    sx_assert(same(out, v), "the value comes back byte for byte");
}
void scan_all(Token t, Storage st, std::string const* k, std::string const* v, int n) {
    ScanHandle h{};
    Status rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
    sx_assert(rc == Status::OK, "open_scan");
    for (int i = 0; i < n; i++) {
        std::string a, b;
        sx_assert(read_key_from_scan(t, h, a) == Status::OK && read_value_from_scan(t, h, b) == Status::OK, "scan reads");
        sx_assert(same(a, k[i]), "scans return keys byte for byte, in bytewise order");
        sx_assert(same(b, v[i]), "scans return values byte for byte");
        rc = next(t, h);
        sx_assert(rc == (i + 1 == n ? Status::WARN_SCAN_LIMIT : Status::OK), "scan ends after the last key");
    }
    sx_assert(close_scan(t, h) == Status::OK, "close_scan");
}
} // namespace

extern "C" void h_bytes() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    const unsigned maxk = SX_TIER ? 5 : 4;
    std::string k[2], v[2];
    k[0] = sym(sx_choose(maxk, "length"), "key");
    k[1] = sym(sx_choose(maxk, "length"), "key");
    v[0] = sym(sx_choose(SX_TIER ? 3 : 2, "length") * 2, "value");
    v[1] = sym(1, "value");
    unsigned kind = sx_choose(2, "kind"), op = sx_choose(2, "op");
    begin(t, kind, st);
    write(t, st, op, k[0], v[0], false);
    bool eq = same(k[0], k[1]);
    if (eq) { sx_witness(1); }
    // what was passed in is not referenced later
    std::string copy = k[1];
    write(t, st, op, copy, v[1], eq);
    for (auto& c : copy) { c = '#'; }
    copy.clear();
    if (eq) { v[0] = v[1]; }
    expect(t, st, k[0], v[0]);
    expect(t, st, k[1], v[1]);
    int n = eq ? 1 : 2;
    if (!eq && less(k[1], k[0])) { std::swap(k[0], k[1]); std::swap(v[0], v[1]); }
    if (sx_choose(2, "scan before commit") != 0) { scan_all(t, st, k, v, n); }
    must_commit(t);
    sx_tick(); sx_tick();
    unsigned r = sx_choose(3, "reader");
    if (r == 0) { begin_short(t); } else if (r == 1) { begin_ro(t); } else { begin_long(t, {}); }
    for (int i = 0; i < n; i++) { expect(t, st, k[i], v[i]); }
    scan_all(t, st, k, v, n);
    // a key differing in its last byte or in length is another record
    std::string out;
    std::string o = k[0] + std::string(1, '\0');
    if (n == 1 || !same(o, k[1])) { sx_assert(search_key(t, st, o, out) == Status::WARN_NOT_FOUND, "a longer key is another record"); }
    must_commit(t);
    no_log_errors();
    sx_witness(0);
}

extern "C" void h_long_values() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    const std::size_t len[] = {15, 16, 17, 31, 48};
    std::string k = sym(len[sx_choose(5, "key length")], "key");
    std::string v = sym(len[sx_choose(5, "value length")], "value");
    unsigned kind = sx_choose(2, "kind");
    begin(t, kind, st);
    sx_assert(upsert(t, st, k, "first") == Status::OK, "upsert");
    must_commit(t);
    begin(t, kind, st);
    sx_assert(update(t, st, k, v) == Status::OK, "update");
    expect(t, st, k, v);
    must_commit(t);
    begin_short(t);
    expect(t, st, k, v);
    scan_all(t, st, &k, &v, 1);
    std::string o = k;
    o.back() = static_cast<char>(o.back() + 1);
    std::string out;
    sx_assert(search_key(t, st, o, out) == Status::WARN_NOT_FOUND, "a key differing in the last byte is another record");
    must_commit(t);
    no_log_errors();
    sx_witness(0);
}

// lengths around the limit; beyond it the length is any number
extern "C" void h_key_length() {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    const std::size_t max = 30UL * 1024;
    std::string big(max, 'k');
    put1(t, st, "k", "v");
    unsigned kind = sx_choose(2, "kind");
    begin(t, kind, st);
    if (sx_choose(2, "beyond") != 0) {
        std::size_t n = sx_u64(64, "length");
        sx_assume(n > max && n < (1ULL << 62U));
        std::string_view k{big.data(), n};
        Status rc{};
        std::string out;
        switch (sx_choose(9, "op")) {
            case 0: rc = insert(t, st, k, "x"); break;
            case 1: rc = update(t, st, k, "x"); break;
            case 2: rc = upsert(t, st, k, "x"); break;
            case 3: { ScanHandle h{}; rc = open_scan(t, st, k, scan_endpoint::INCLUSIVE, "", scan_endpoint::INF, h); break; }
            case 4: { ScanHandle h{}; rc = open_scan(t, st, "", scan_endpoint::INF, k, scan_endpoint::INCLUSIVE, h); break; }
            case 5: rc = delete_record(t, st, k); break;
            case 6: rc = exist_key(t, st, k); break;
            case 7: { Storage s2{}; rc = create_storage(k, s2); break; }
            default: rc = search_key(t, st, k, out); break;
        }
        sx_assert(rc == Status::WARN_INVALID_KEY_LENGTH, "a key beyond the limit is refused");
        sx_witness(1);
        std::string key = "k", val = "v";
        scan_all(t, st, &key, &val, 1);
        must_commit(t);
        begin_short(t);
        scan_all(t, st, &key, &val, 1);
        must_commit(t);
    } else {
        std::size_t n = max - sx_choose(2, "below");
        std::string k(big.data(), n);
        sx_assert(insert(t, st, k, "x") == Status::OK, "a key up to the limit is accepted");
        must_commit(t);
        begin_short(t);
        expect(t, st, k, "x");
        sx_assert(delete_record(t, st, k) == Status::OK, "delete");
        must_commit(t);
        sx_witness(2);
    }
    no_log_errors();
    sx_witness(0);
}
