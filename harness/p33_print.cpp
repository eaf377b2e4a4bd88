// P33: printed byte strings, lists and options.
#include <cstring>
#include <iomanip>
#include <sstream>
#include <string>
#include <vector>
#include "shirakami/binary_printer.h"
#include "shirakami/span_printer.h"
#include "shirakami/transaction_options.h"
#include "concurrency_control/include/tid.h"
#include "sx.h"
using namespace shirakami;

namespace {
void put(std::string& s, const char* t) { s += t; }
void put_num(std::string& s, std::uint64_t v) {
    char b[24];
    int n = 0;
    do { b[n++] = static_cast<char>('0' + v % 10); v /= 10; } while (v != 0);
    while (n > 0) { s += b[--n]; }
}
void put_hex(std::string& s, std::uint64_t v) {
    if (v == 0) { s += '0'; return; }
    s += "0x";
    bool on = false;
    for (int i = 60; i >= 0; i -= 4) {
        unsigned d = (v >> static_cast<unsigned>(i)) & 15U;
        on = on || d != 0;
        if (on) { s += "0123456789abcdef"[d]; }
    }
}
bool same(std::string const& a, std::string const& b) {
    if (a.size() != b.size()) { return false; }
    bool r = true;
    for (std::size_t i = 0; i < a.size(); i++) { r = r & (a[i] == b[i]); }
    return r;
}
struct fmt { std::ios_base::fmtflags f; std::streamsize w, p; char fill; };
fmt get(std::ostream& o) { return {o.flags(), o.width(), o.precision(), o.fill()}; }
bool eq(fmt const& a, fmt const& b) { return a.f == b.f && a.w == b.w && a.p == b.p && a.fill == b.fill; }
void set_stream(std::ostream& o) {
    switch (sx_choose(4, "stream")) {
        case 0: break;
        case 1: o << std::hex << std::uppercase; break;
        case 2: o << std::setfill('*') << std::left; break;
        default: o << std::boolalpha << std::showbase << std::oct; break;
    }
}
const std::uint64_t nums[] = {0, 7, 10, 42, 4294967296ULL, 18446744073709551615ULL};
std::uint64_t num() { return nums[sx_choose(6, "number")]; }
} // namespace

extern "C" void h_print_bytes() {
    std::ostringstream o;
    set_stream(o);
    std::size_t n = sx_choose(SX_TIER ? 7 : 5, "length");
    char b[8];
    sx_bytes(b, n, "bytes");
    char c[8];
    for (std::size_t i = 0; i < n; i++) { c[i] = b[i]; }
    fmt f = get(o);
    if (sx_choose(2, "ctor") == 0) { o << binary_printer(b, n); } else { o << binary_printer(std::string_view(b, n)); }
    sx_assert(eq(f, get(o)), "printing leaves the stream's formatting as it was");
    sx_assert(o.good(), "printing leaves the stream good");
    std::string want;
    for (std::size_t i = 0; i < n; i++) {
        unsigned char u = static_cast<unsigned char>(c[i]);
        sx_assert(b[i] == c[i], "printing does not change the value");
        if (u >= 0x20 && u < 0x7f) { want += static_cast<char>(u); }
        else {
            want += "\\x";
            unsigned hi = u >> 4U, lo = u & 15U;
            const unsigned a = (f.f & std::ios_base::uppercase) != 0 ? 'A' : 'a'; // the caller's choice of letter case
            want += static_cast<char>(hi < 10 ? '0' + hi : a + hi - 10);
            want += static_cast<char>(lo < 10 ? '0' + lo : a + lo - 10);
        }
    }
    sx_assert(same(o.str(), want), "printable bytes appear as themselves, all others as two hexadecimal digits");
    sx_witness(0);
}

extern "C" void h_print_span() {
    std::ostringstream o;
    std::size_t n = sx_choose(4, "length");
    std::string want = "[";
    bool sep = sx_choose(2, "separator") != 0;
    const char* s = sep ? "<>" : ", ";
    bool vec = sx_choose(2, "from") != 0;
    if (sx_choose(2, "element") == 0) {
        std::vector<std::uint64_t> v;
        for (std::size_t i = 0; i < n; i++) {
            std::uint64_t x = num();
            v.push_back(x);
            if (i > 0) { want += s; }
            put_num(want, x);
        }
        if (vec) { if (sep) { o << span_printer<std::uint64_t>(v, s); } else { o << span_printer<std::uint64_t>(v); } }
        else { if (sep) { o << span_printer<std::uint64_t>(v.data(), v.size(), s); } else { o << span_printer<std::uint64_t>(v.data(), v.size()); } }
    } else {
        std::vector<char> v;
        for (std::size_t i = 0; i < n; i++) {
            char x{};
            sx_bytes(&x, 1, "char");
            v.push_back(x);
            if (i > 0) { want += s; }
            want += x;
        }
        if (vec) { if (sep) { o << span_printer<char>(v, s); } else { o << span_printer<char>(v); } }
        else { if (sep) { o << span_printer<char>(v.data(), v.size(), s); } else { o << span_printer<char>(v.data(), v.size()); } }
    }
    want += ']';
    sx_assert(same(o.str(), want), "a list prints every element once, in order, separated");
    sx_witness(0);
}

extern "C" void h_print_options() {
    using tt = transaction_options::transaction_type;
    std::ostringstream o;
    Token tok = reinterpret_cast<Token>(sx_choose(2, "token") == 0 ? 0UL : 0xdeadbeef10UL);
    std::uint64_t k = sx_choose(3, "kind");
    tt t = k == 0 ? tt::SHORT : k == 1 ? tt::LONG : tt::READ_ONLY;
    std::vector<Storage> wp;
    std::size_t nw = sx_choose(3, "reserved");
    for (std::size_t i = 0; i < nw; i++) { wp.push_back(num()); }
    std::set<Storage> pos, neg;
    std::size_t np = sx_choose(3, "inclusive"), nn = sx_choose(3, "exclusive");
    for (std::size_t i = 0; i < np; i++) { pos.insert(nums[1 + i * 2]); }
    for (std::size_t i = 0; i < nn; i++) { neg.insert(nums[5 - i * 2]); }
    transaction_options op(tok, t, wp, {pos, neg});
    fmt f = get(o);
    o << op;
    sx_assert(eq(f, get(o)), "printing leaves the stream's formatting as it was");
    std::string w = "Token: ";
    put_hex(w, reinterpret_cast<std::uint64_t>(tok));
    put(w, ", transaction_type: ");
    put(w, k == 0 ? "SHORT" : k == 1 ? "LONG" : "READ_ONLY");
    put(w, ", write_preserve: ");
    for (std::size_t i = 0; i < nw; i++) { if (i > 0) { w += ' '; } put_num(w, wp[i]); }
    put(w, ", read_area: ");
    auto list = [&w](const char* name, std::set<Storage> const& l) {
        w += name;
        w += '{';
        bool first = true;
        for (auto e : l) { if (!first) { w += ", "; } first = false; put_num(w, e); }
        w += '}';
    };
    if (np > 0) { list("positive list", pos); }
    if (np > 0 && nn > 0) { w += ", "; }
    if (nn > 0) { list("negative list", neg); }
    sx_assert(same(o.str(), w), "the printed options name the token, kind, reservations and read area");
    // the accessors give back what was set
    sx_assert(op.get_token() == tok && op.get_transaction_type() == t && op.get_write_preserve() == wp, "options keep what was given");
    auto ra = op.get_read_area();
    sx_assert(ra.get_positive_list() == pos && ra.get_negative_list() == neg && ra.empty() == (np == 0 && nn == 0), "options keep the read area");
    transaction_options cp;
    sx_assert(cp.get_transaction_type() == tt::SHORT && cp.get_token() == nullptr && cp.get_read_area().empty() && cp.get_write_preserve().empty(), "defaults");
    cp.set_token(tok); cp.set_transaction_type(t); cp.set_write_preserve(wp); cp.set_read_area(ra);
    std::ostringstream o2;
    o2 << cp;
    sx_assert(same(o2.str(), w), "options set one by one print alike");
    sx_witness(0);
}

extern "C" void h_print_word() {
    tid_word w;
    std::uint64_t f = sx_u64(5, "flags");
    w.set_lock((f & 1) != 0); w.set_lock_by_gc((f & 2) != 0); w.set_latest((f & 4) != 0); w.set_absent((f & 8) != 0); w.set_by_short((f & 16) != 0);
    w.set_tid(nums[sx_choose(5, "tid")]);
    w.set_epoch(nums[sx_choose(5, "epoch")]);
    std::ostringstream o;
    o << w;
    std::string s = "lock_:";
    auto b = [&s](bool v) { s += static_cast<char>('0' + (v ? 1 : 0)); };
    b(w.get_lock()); put(s, ", lock_by_gc:"); b(w.get_lock_by_gc()); put(s, ", latest_:"); b(w.get_latest());
    put(s, ", absent_:"); b(w.get_absent()); put(s, ", tid_:"); put_num(s, w.get_tid()); put(s, ", by_short_:"); b(w.get_by_short());
    put(s, ", epoch_:"); put_num(s, w.get_epoch());
    sx_assert(same(o.str(), s), "a version word prints its parts");
    sx_witness(0);
}
