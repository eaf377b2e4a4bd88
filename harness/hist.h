// Recording histories of transactions over a few keys, and deciding whether some
// one-after-another execution of the committed ones explains everything seen.
#pragma once
#include "common.h"

namespace hist {
using namespace hx;
constexpr int NK = 4;   // keys
constexpr int NO = 6;   // operations per transaction
enum op_kind { RD, EX, INS, UPD, UPS, DEL, SCAN, RSCAN };
enum tx_state { RUN, WAIT, COM, ABO };

struct key { int st; const char* k; };
inline key keys[NK];
inline int nkeys;
inline Storage sts[3];
inline int state0[NK]; // contents before the transactions; -1: absent

struct op {
    op_kind kind;
    int key;      // or storage, for scans
    int val;
    Status rc;
    int got;
    int sc_k[NK], sc_v[NK], nsc;
    bool part;    // the scan met a record that another transaction was working on
};
struct tx {
    Token t{};
    tt kind{tt::SHORT};
    op o[NO];
    int n{0};
    int id{0};
    int calls{0};
    tx_state st{RUN};
};
inline char code(int v) { return static_cast<char>('0' + v); }

inline bool no_effect(Status rc) {
    return rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE || rc == Status::WARN_PREMATURE ||
           rc == Status::WARN_CONFLICT_ON_WRITE_PRESERVE || rc == Status::WARN_WRITE_WITHOUT_WP || rc == Status::WARN_ILLEGAL_OPERATION;
}
inline bool is_error(Status rc) { return static_cast<int>(rc) > 0; }

inline int key_index(int st, std::string_view k) {
    for (int i = 0; i < nkeys; i++) { if (keys[i].st == st && k == keys[i].k) { return i; } }
    return -1;
}
// one whole scan of storage st, recorded in o
inline Status scan_all(Token t, int st, op& o, bool rev) {
    ScanHandle h{};
    o.nsc = 0;
    o.part = false;
    Status rc = open_scan(t, sts[st], "", scan_endpoint::INF, "", scan_endpoint::INF, h, rev ? 1 : 0, rev);
    if (rc == Status::WARN_NOT_FOUND) { return Status::OK; }
    if (rc != Status::OK) { return rc; }
    for (;;) {
        std::string k, v;
        rc = read_key_from_scan(t, h, k);
        if (rc == Status::OK) { rc = read_value_from_scan(t, h, v); }
        if (rc == Status::OK) {
            sx_assert(o.nsc < NK, "a scan delivers no more records than there are");
            o.sc_k[o.nsc] = key_index(st, k);
            o.sc_v[o.nsc++] = v.size() == 1 ? v[0] - '0' : -2;
        } else if (is_error(rc)) { return rc; }
        else if (rc == Status::WARN_CONCURRENT_INSERT || rc == Status::WARN_CONCURRENT_UPDATE) { o.part = true; }
        else { sx_assert(rc == Status::WARN_NOT_FOUND, "known result of a scan read"); }
        rc = next(t, h);
        if (rc == Status::WARN_SCAN_LIMIT) { break; }
        if (rc != Status::OK) { return rc; }
    }
    close_scan(t, h);
    return Status::OK;
}
inline Status run(tx& x, op_kind kind, int key) {
    sx_assert(x.n < NO, "harness: too many operations");
    op& o = x.o[x.n];
    o.kind = kind;
    o.key = key;
    o.val = 1 + x.id * NO + x.n;
    x.n++;
    char c = code(o.val);
    std::string_view v{&c, 1};
    std::string out;
    o.got = -1;
    o.nsc = 0;
    if (kind == SCAN || kind == RSCAN) { o.rc = scan_all(x.t, key, o, kind == RSCAN); }
    else {
        Storage st = sts[keys[key].st];
        std::string_view k = keys[key].k;
        switch (kind) {
            case RD: o.rc = search_key(x.t, st, k, out); if (o.rc == Status::OK) { o.got = out.size() == 1 ? out[0] - '0' : -2; } break;
            case EX: o.rc = exist_key(x.t, st, k); break;
            case INS: o.rc = insert(x.t, st, k, v); break;
            case UPD: o.rc = update(x.t, st, k, v); break;
            case UPS: o.rc = upsert(x.t, st, k, v); break;
            default: o.rc = delete_record(x.t, st, k); break;
        }
        if (o.rc == Status::WARN_CANCEL_PREVIOUS_INSERT || o.rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) { o.rc = Status::OK; }
    }
    static const char* const names[] = {"RD", "EX", "INS", "UPD", "UPS", "DEL", "SCAN", "RSCAN"};
    sx_note(names[kind], x.id * 10 + key);
    sx_note("  rc", static_cast<std::uint64_t>(o.rc));
    sx_note("  got", o.got);
    if (is_error(o.rc)) { x.st = ABO; }
    return o.rc;
}
inline void finish(tx& x, Status rc) {
    sx_note("end", x.id * 10);
    sx_note("  rc", static_cast<std::uint64_t>(rc));
    if (rc == Status::OK) { x.st = COM; }
    else if (rc == Status::WARN_WAITING_FOR_OTHER_TX) { x.st = WAIT; }
    else { sx_assert(rc == Status::ERR_CC || rc == Status::ERR_KVS, "a refused commit reports a concurrency error"); x.st = ABO; }
}
inline void end(tx& x) { finish(x, commit(x.t)); }
// commit request of any kind of transaction; a waiting one is decided later, through the callback
inline void end_cb(tx& x) {
    x.calls = 0;
    bool now = commit(x.t, [&x](Status rc, reason_code, durability_marker_type) {
        sx_assert(x.calls++ == 0, "the callback is called once");
        finish(x, rc);
    });
    sx_assert(now == (x.calls == 1), "the request tells whether it was decided");
    if (!now) { x.st = WAIT; }
}
// let the background work until the waiting ones are decided
inline void settle(tx* xs, int n, unsigned ticks = 6) {
    for (unsigned k = 0; k < ticks; k++) {
        bool w = false;
        for (int i = 0; i < n; i++) { w = w || xs[i].st == WAIT; }
        if (!w) { return; }
        sx_tick();
    }
}

// what x would have seen and done started on contents s; false if it saw something else
inline bool replay(tx const& x, int* s) {
    for (int i = 0; i < x.n; i++) {
        op const& o = x.o[i];
        if (no_effect(o.rc)) { continue; }
        // the engine takes these answers of a write as a hint about the newest contents, not as a read
        if (x.kind == tt::LONG && o.kind == INS && o.rc == Status::WARN_ALREADY_EXISTS) { continue; }
        if ((o.kind == UPD || o.kind == DEL) && o.rc == Status::WARN_NOT_FOUND) { continue; }
        if ((o.kind == SCAN || o.kind == RSCAN) && o.part) {
            for (int j = 0; j < o.nsc; j++) { if (o.sc_k[j] < 0 || s[o.sc_k[j]] != o.sc_v[j]) { return false; } }
            continue;
        }
        if (o.kind == SCAN || o.kind == RSCAN) {
            int n = 0, last = -1;
            for (int j = 0; j < nkeys; j++) {
                if (keys[j].st != o.key || s[j] < 0) { continue; }
                last = j;
                if (o.kind == RSCAN) { continue; }
                if (n >= o.nsc || o.sc_k[n] != j || o.sc_v[n] != s[j]) { return false; }
                n++;
            }
            if (o.kind == RSCAN) {
                if (last < 0) { if (o.nsc != 0) { return false; } continue; }
                if (o.nsc != 1 || o.sc_k[0] != last || o.sc_v[0] != s[last]) { return false; }
                continue;
            }
            if (n != o.nsc) { return false; }
            continue;
        }
        int& c = s[o.key];
        switch (o.kind) {
            case RD: if (c < 0 ? o.rc != Status::WARN_NOT_FOUND : (o.rc != Status::OK || o.got != c)) { return false; } break;
            case EX: if (o.rc != (c < 0 ? Status::WARN_NOT_FOUND : Status::OK)) { return false; } break;
            case INS: if (o.rc != (c < 0 ? Status::OK : Status::WARN_ALREADY_EXISTS)) { return false; } if (c < 0) { c = o.val; } break;
            // a long transaction's update or delete is judged against the newest contents, whatever its place in the order
            case UPD: if (c < 0 && x.kind == tt::SHORT) { return false; } c = o.val; break;
            case UPS: if (o.rc != Status::OK) { return false; } c = o.val; break;
            default: if (c < 0 && x.kind == tt::SHORT) { return false; } c = -1; break;
        }
    }
    return true;
}
inline bool explain(tx* const* x, int n, unsigned done, int const* s, int const* fin) {
    if (done == (1U << static_cast<unsigned>(n)) - 1) {
        for (int j = 0; j < nkeys; j++) { if (s[j] != fin[j]) { return false; } }
        return true;
    }
    for (int i = 0; i < n; i++) {
        if ((done >> static_cast<unsigned>(i) & 1U) != 0) { continue; }
        int c[NK];
        for (int j = 0; j < nkeys; j++) { c[j] = s[j]; }
        if (replay(*x[i], c) && explain(x, n, done | 1U << static_cast<unsigned>(i), c, fin)) { return true; }
    }
    return false;
}
inline void read_state(Token t, int* s) {
    begin_short(t);
    for (int j = 0; j < nkeys; j++) {
        std::string b;
        Status rc = search_key(t, sts[keys[j].st], keys[j].k, b);
        sx_note("final", j);
        sx_note("  rc", static_cast<std::uint64_t>(rc));
        sx_assert(rc == Status::OK || rc == Status::WARN_NOT_FOUND, "contents can be read after all transactions ended");
        s[j] = rc == Status::OK ? (b.size() == 1 ? b[0] - '0' : -2) : -1;
    }
    must_commit(t, "reading the contents commits");
}
inline void check(tx* xs, int n, Token reader, const char* msg = "the committed transactions are equivalent to some one-after-another execution") {
    int fin[NK];
    read_state(reader, fin);
    tx* c[8];
    int m = 0;
    for (int i = 0; i < n; i++) {
        sx_assert(xs[i].st == COM || xs[i].st == ABO, "every transaction is decided");
        if (xs[i].st == COM) { c[m++] = &xs[i]; }
    }
    sx_assert(explain(c, m, 0, state0, fin), msg);
}
// contents: key i present with value 0 if bit i of present is set; deleted before if bit i of gone is set
inline void fill(Token t, unsigned present, unsigned gone = 0) {
    begin_short(t);
    for (int j = 0; j < nkeys; j++) {
        state0[j] = (present >> static_cast<unsigned>(j) & 1U) != 0 ? 0 : -1;
        if (((present | gone) >> static_cast<unsigned>(j) & 1U) != 0) { sx_assert(upsert(t, sts[keys[j].st], keys[j].k, "0") == Status::OK, "upsert"); }
    }
    must_commit(t);
    if (gone != 0) {
        begin_short(t);
        for (int j = 0; j < nkeys; j++) { if ((gone >> static_cast<unsigned>(j) & 1U) != 0) { sx_assert(delete_record(t, sts[keys[j].st], keys[j].k) == Status::OK, "delete"); } }
        must_commit(t);
    }
}
} // namespace hist
