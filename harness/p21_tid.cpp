// P21: version words.
#include "concurrency_control/include/tid.h"
#include "sx.h"
using namespace shirakami;

namespace {
struct parts {
    bool lock, gc, latest, absent, bs;
    std::uint64_t tid, ep;
};
const std::uint64_t M52 = (1ULL << 52) - 1;
tid_word word(const char* n) {
    __uint128_t hi = sx_u64(64, n);
    __uint128_t lo = sx_u64(64, n);
    tid_word w;
    w.set_obj((hi << 64) | lo);
    return w;
}
parts get(tid_word const& w) { return {w.get_lock(), w.get_lock_by_gc(), w.get_latest(), w.get_absent(), w.get_by_short(), w.get_tid(), w.get_epoch()}; }
bool same(parts const& a, parts const& b) {
    return (a.lock == b.lock) & (a.gc == b.gc) & (a.latest == b.latest) & (a.absent == b.absent) & (a.bs == b.bs) & (a.tid == b.tid) & (a.ep == b.ep);
}
} // namespace

// any setter on any word: that part gets the value, all others stay
extern "C" void h_tid_set() {
    tid_word w = word("word");
    parts p = get(w);
    tid_word before = w;
    std::uint64_t op = sx_choose(9, "setter");
    std::uint64_t v = sx_u64(64, "value");
    bool b = (v & 1) != 0;
    switch (op) {
        case 0: w.set_lock(b); p.lock = b; break;
        case 1: w.set_lock_by_gc(b); p.gc = b; break;
        case 2: w.set_latest(b); p.latest = b; break;
        case 3: w.set_absent(b); p.absent = b; break;
        case 4: w.set_by_short(b); p.bs = b; break;
        case 5: sx_assume(v <= M52); w.set_tid(v); p.tid = v; break;
        case 6: sx_assume(v <= M52); w.set_epoch(static_cast<epoch::epoch_t>(v)); p.ep = v; break;
        case 7: w.inc_tid(); p.tid = (p.tid + 1) & M52; break;
        default: w.reset(); p = parts{}; sx_assert(w.empty(), "a reset word is empty"); break;
    }
    sx_assert(same(get(w), p), "a setter changed exactly its own part");
    // writing the old value back restores the whole word
    if (op != 8) {
        tid_word r = w;
        switch (op) {
            case 0: r.set_lock(before.get_lock()); break;
            case 1: r.set_lock_by_gc(before.get_lock_by_gc()); break;
            case 2: r.set_latest(before.get_latest()); break;
            case 3: r.set_absent(before.get_absent()); break;
            case 4: r.set_by_short(before.get_by_short()); break;
            case 6: r.set_epoch(before.get_epoch()); break;
            default: r.set_tid(before.get_tid()); break;
        }
        sx_assert(r == before, "restoring the part restores the word");
        sx_assert(!(r != before), "equality and inequality agree");
    }
    sx_witness(0);
}

// parts set together read back together: no two parts share storage
extern "C" void h_tid_all() {
    tid_word w = word("word");
    std::uint64_t f = sx_u64(8, "flags");
    std::uint64_t t = sx_u64(52, "tid");
    std::uint64_t e = sx_u64(52, "epoch");
    parts p{(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, (f & 8) != 0, (f & 16) != 0, t, e};
    w.set_tid(p.tid); w.set_epoch(static_cast<epoch::epoch_t>(p.ep)); w.set_lock(p.lock); w.set_lock_by_gc(p.gc);
    w.set_latest(p.latest); w.set_absent(p.absent); w.set_by_short(p.bs);
    sx_assert(same(get(w), p), "all parts keep their values");
    tid_word c = w;
    tid_word d;
    d = w;
    sx_assert(c == w && d == w && same(get(c), p) && same(get(d), p), "copies are equal");
    tid_word z(w.get_obj());
    sx_assert(z == w, "word rebuilt from its value");
    sx_witness(0);
}

// order of two words that differ in epoch, writer kind and number only
extern "C" void h_tid_order() {
    tid_word a = word("base");
    tid_word b = a;
    std::uint64_t ta = sx_u64(52, "tid_a"), tb = sx_u64(52, "tid_b"), ea = sx_u64(52, "ep_a"), eb = sx_u64(52, "ep_b");
    bool sa = sx_u64(1, "short_a") != 0, sb = sx_u64(1, "short_b") != 0;
    a.set_tid(ta); a.set_epoch(static_cast<epoch::epoch_t>(ea)); a.set_by_short(sa);
    b.set_tid(tb); b.set_epoch(static_cast<epoch::epoch_t>(eb)); b.set_by_short(sb);
    bool lt = (ea < eb) | ((ea == eb) & ((!sa & sb) | ((sa == sb) & (ta < tb))));
    bool gt = (eb < ea) | ((ea == eb) & ((!sb & sa) | ((sa == sb) & (tb < ta))));
    sx_assert((a < b) == lt, "order is by epoch, writer kind, number");
    sx_assert((a > b) == gt, "reverse order is by epoch, writer kind, number");
    sx_assert((a == b) == (!lt && !gt), "equal words are equal positions");
    sx_witness(0);
}

// lock and unlock touch only the lock parts
extern "C" void h_tid_lock() {
    tid_word w = word("word");
    sx_assume(!w.get_lock());
    parts p = get(w);
    tid_word before = w;
    bool gc = sx_u64(1, "by_gc") != 0;
    w.lock(gc);
    p.lock = true;
    p.gc = gc;
    sx_assert(same(get(w), p), "locking sets the lock parts only");
    w.unlock();
    p.lock = false;
    p.gc = false;
    sx_assert(same(get(w), p), "unlocking clears the lock parts only");
    before.set_lock_by_gc(false);
    sx_assert(w == before, "the rest of the word is untouched");
    sx_witness(0);
}
