// P06: one transaction against an ordered map with its own writes applied.
#include "common.h"
using namespace hx;

#ifndef P06_OPS
#define P06_OPS (SX_TIER ? 4 : 3)
#endif

namespace {
enum { NONE, INS, UPD, UPS, DEL };
struct ent {
    char k;
    bool com;      // committed before the transaction
    char comv;
    int l;         // own write
    char v;        // own value
    bool live() const { return l == NONE ? com : l != DEL; }
    char val() const { return l == NONE ? comv : v; }
};
ent tab[8];
int ntab;
ent& find(char k) {
    for (int i = 0; i < ntab; i++) {
        if (tab[i].k == k) { return tab[i]; }
    }
    tab[ntab] = ent{k, false, 0, NONE, 0};
    return tab[ntab++];
}

void run(int kind) {
    open_db();
    Storage st = make_storage();
    Token t = open_session();
    // prior contents: key 'a' live, key 'b' written and deleted, everything else never seen
    char v0 = 'x';
    put1(t, st, "a", {&v0, 1});
    put1(t, st, "b", "y");
    del1(t, st, "b");
    ntab = 0;
    tab[ntab++] = ent{'a', true, v0, NONE, 0};
    tab[ntab++] = ent{'b', false, 0, NONE, 0};
    if (kind == 0) { begin_short(t); } else { begin_long(t, {st}); }
    for (int i = 0; i < P06_OPS; i++) {
        std::uint64_t op = sx_choose(6, "op");
        char k{};
        sx_bytes(&k, 1, "key");
        char v{};
        sx_bytes(&v, 1, "value");
        std::string_view key{&k, 1}, val{&v, 1};
        std::string out;
        Status rc{};
        switch (op) {
            case 0: rc = insert(t, st, key, val); break;
            case 1: rc = update(t, st, key, val); break;
            case 2: rc = upsert(t, st, key, val); break;
            case 3: rc = delete_record(t, st, key); break;
            case 4: rc = search_key(t, st, key, out); break;
            default: rc = exist_key(t, st, key); break;
        }
        ent& e = find(k);
        switch (op) {
            case 0:
                if (e.live()) { sx_assert(rc == Status::WARN_ALREADY_EXISTS, "insert of an existing key is refused"); break; }
                sx_assert(rc == Status::OK, "insert of a missing key succeeds");
                e.l = e.l == DEL ? UPD : INS;
                e.v = v;
                break;
            case 1:
                if (!e.live()) { sx_assert(rc == Status::WARN_NOT_FOUND, "update of a missing key is refused"); break; }
                sx_assert(rc == Status::OK, "update of an existing key succeeds");
                if (e.l == NONE) { e.l = UPD; }
                e.v = v;
                break;
            case 2:
                sx_assert(rc == Status::OK, "upsert succeeds");
                if (e.l == NONE) { e.l = UPS; }
                else if (e.l == DEL) { e.l = UPD; }
                e.v = v;
                break;
            case 3:
                if (!e.live()) { sx_assert(rc == Status::WARN_NOT_FOUND, "delete of a missing key is refused"); break; }
                if (e.l == INS) { sx_assert(rc == Status::WARN_CANCEL_PREVIOUS_INSERT, "delete cancels the own insert"); }
                else if (e.l == UPS) { sx_assert(rc == Status::WARN_CANCEL_PREVIOUS_UPSERT, "delete cancels the own upsert"); }
                else { sx_assert(rc == Status::OK, "delete of an existing key succeeds"); }
                e.l = e.com ? DEL : NONE;
                break;
            case 4:
                if (!e.live()) { sx_assert(rc == Status::WARN_NOT_FOUND, "search of a missing key finds nothing"); break; }
                sx_assert(rc == Status::OK, "search of an existing key finds it");
                sx_assert(out.size() == 1 && out[0] == e.val(), "search returns the current value");
                break;
            default:
                sx_assert(rc == (e.live() ? Status::OK : Status::WARN_NOT_FOUND), "exist_key tells whether the key is there");
                break;
        }
    }
    must_commit(t);
    sx_tick();
    // the contents are exactly the map
    begin_short(t);
    for (int i = 0; i < ntab; i++) {
        std::string out;
        auto rc = search_key(t, st, {&tab[i].k, 1}, out);
        if (tab[i].live()) { sx_assert(rc == Status::OK && out.size() == 1 && out[0] == tab[i].val(), "after commit the written value is there"); }
        else { sx_assert(rc == Status::WARN_NOT_FOUND, "after commit a removed or never written key is not there"); }
    }
    std::size_t n = 0, want = 0;
    for (int i = 0; i < ntab; i++) { want += tab[i].live(); }
    ScanHandle h{};
    auto rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
    if (rc == Status::OK) {
        do { n++; } while (next(t, h) == Status::OK);
    }
    sx_assert(n == want, "nothing else is in the storage");
    must_commit(t);
    no_log_errors();
    sx_witness(0);
}
} // namespace
extern "C" void h_kv_short() { run(0); }
extern "C" void h_kv_long() { run(1); }
