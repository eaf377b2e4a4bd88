// Character streams for the symbolic run: the library's own stream templates are instantiated here, with
// number formatting and locales replaced by plain "C" locale code.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <ios>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>

extern "C" void sx_fail(const char*);

namespace std {
// ---- locale: a single empty one
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale&) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
size_t locale::id::_M_id() const noexcept { return 0; }
locale::id ctype<char>::id;

// ---- ios_base
ios_base::ios_base() noexcept : _M_word_size(_S_local_word_size), _M_word(_M_local_word) {
    _M_precision = 0;
    _M_width = 0;
    _M_flags = fmtflags();
    _M_exception = goodbit;
    _M_streambuf_state = goodbit;
    _M_callbacks = nullptr;
}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept {
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}

namespace {
alignas(ctype<char>) char sx_ctype[sizeof(ctype<char>)];
const ctype<char>* sx_get_ctype() {
    auto* c = reinterpret_cast<ctype<char>*>(sx_ctype);
    if (c->_M_widen_ok == 0) {
        for (int i = 0; i < 256; i++) { c->_M_widen[i] = static_cast<char>(i); c->_M_narrow[i] = static_cast<char>(i); }
        c->_M_widen_ok = 1;
        c->_M_narrow_ok = 1;
    }
    return c;
}
} // namespace
template<> void basic_ios<char>::_M_cache_locale(const locale&) {
    _M_ctype = sx_get_ctype();
    _M_num_put = nullptr;
    _M_num_get = nullptr;
}
template<> char basic_ios<char>::widen(char c) const { return c; }
template<> char basic_ios<char>::narrow(char c, char) const { return c; }
template<> char basic_ios<char>::fill() const {
    if (!_M_fill_init) { _M_fill = ' '; _M_fill_init = true; }
    return _M_fill;
}
template<> char basic_ios<char>::fill(char c) {
    char o = this->fill();
    _M_fill = c;
    return o;
}
template<> locale basic_ios<char>::imbue(const locale&) { return locale(); }

namespace {
void put_field(ostream& o, const char* s, size_t n, size_t prefix) {
    size_t w = static_cast<size_t>(o.width());
    o.width(0);
    size_t pad = w > n ? w - n : 0;
    auto adj = o.flags() & ios_base::adjustfield;
    char f = o.fill();
    auto* b = o.rdbuf();
    if (b == nullptr) { o.setstate(ios_base::badbit); return; }
    if (adj == ios_base::internal) {
        for (size_t i = 0; i < prefix; i++) { b->sputc(s[i]); }
        for (size_t i = 0; i < pad; i++) { b->sputc(f); }
        for (size_t i = prefix; i < n; i++) { b->sputc(s[i]); }
        return;
    }
    if (adj != ios_base::left) { for (size_t i = 0; i < pad; i++) { b->sputc(f); } }
    for (size_t i = 0; i < n; i++) { b->sputc(s[i]); }
    if (adj == ios_base::left) { for (size_t i = 0; i < pad; i++) { b->sputc(f); } }
}
void put_num(ostream& o, unsigned long v, bool neg, bool sgn) {
    char buf[32];
    char* e = buf + sizeof buf;
    char* p = e;
    auto base = o.flags() & ios_base::basefield;
    bool up = (o.flags() & ios_base::uppercase) != 0;
    unsigned long shown = v;
    bool b10 = base != ios_base::hex && base != ios_base::oct;
    if (b10 && neg) { shown = 0UL - v; }
    if (base == ios_base::hex) {
        do {
            unsigned d = shown & 15U;
            *--p = static_cast<char>(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10));
            shown >>= 4U;
        } while (shown != 0);
    } else if (base == ios_base::oct) {
        do { *--p = static_cast<char>('0' + (shown & 7U)); shown >>= 3U; } while (shown != 0);
    } else {
        do { *--p = static_cast<char>('0' + shown % 10); shown /= 10; } while (shown != 0);
    }
    size_t prefix = 0;
    if ((o.flags() & ios_base::showbase) != 0 && v != 0 && !b10) {
        if (base == ios_base::hex) { *--p = up ? 'X' : 'x'; *--p = '0'; prefix = 2; } else { *--p = '0'; prefix = 1; }
    }
    if (b10 && neg) { *--p = '-'; prefix = 1; }
    else if (b10 && sgn && (o.flags() & ios_base::showpos) != 0) { *--p = '+'; prefix = 1; }
    put_field(o, p, static_cast<size_t>(e - p), prefix);
}
} // namespace

template<> template<> ostream& ostream::_M_insert<unsigned long>(unsigned long v) { put_num(*this, v, false, false); return *this; }
template<> template<> ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { put_num(*this, v, false, false); return *this; }
template<> template<> ostream& ostream::_M_insert<long>(long v) { put_num(*this, static_cast<unsigned long>(v), v < 0, true); return *this; }
template<> template<> ostream& ostream::_M_insert<long long>(long long v) { put_num(*this, static_cast<unsigned long>(v), v < 0, true); return *this; }
template<> template<> ostream& ostream::_M_insert<bool>(bool v) {
    if ((flags() & ios_base::boolalpha) != 0) { put_field(*this, v ? "true" : "false", v ? 4 : 5, 0); }
    else { put_num(*this, v ? 1 : 0, false, true); }
    return *this;
}
template<> template<> ostream& ostream::_M_insert<const void*>(const void* v) {
    auto f = flags();
    flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase);
    put_num(*this, reinterpret_cast<unsigned long>(v), false, false);
    flags(f);
    return *this;
}
template<> template<> ostream& ostream::_M_insert<double>(double) { sx_fail("printing of floating point numbers is not modelled"); return *this; }
template<> template<> ostream& ostream::_M_insert<long double>(long double) { sx_fail("printing of floating point numbers is not modelled"); return *this; }

template<> streamsize __copy_streambufs_eof<char, char_traits<char>>(streambuf*, streambuf*, bool&);
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_ostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template ostream& __ostream_insert<char, char_traits<char>>(ostream&, const char*, streamsize);
template ostream& endl<char, char_traits<char>>(ostream&);
template ostream& ends<char, char_traits<char>>(ostream&);
template ostream& flush<char, char_traits<char>>(ostream&);
template ostream& operator<< <char_traits<char>>(ostream&, const char*);
template ostream& operator<< <char_traits<char>>(ostream&, char);
template ostream& operator<< <char_traits<char>>(ostream&, signed char);
template ostream& operator<< <char_traits<char>>(ostream&, unsigned char);

// the input half is only constructed, never read from
template<> basic_istream<char>::~basic_istream() { _M_gcount = 0; }
template<> basic_iostream<char>::~basic_iostream() {}
template<> basic_stringstream<char>::basic_stringstream() : __iostream_type(), _M_stringbuf(ios_base::out | ios_base::in) { this->init(&_M_stringbuf); }
template<> basic_stringstream<char>::basic_stringstream(ios_base::openmode m) : __iostream_type(), _M_stringbuf(m) { this->init(&_M_stringbuf); }
template<> basic_stringstream<char>::~basic_stringstream() {}

void ctype<char>::_M_widen_init() const {}

void ios_base_library_init() {}
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
void __throw_ios_failure(const char* m) { sx_fail(m); }
void ios_base::_M_move(ios_base&) noexcept { sx_fail("stream move is not modelled"); }
void ios_base::_M_swap(ios_base&) noexcept { sx_fail("stream swap is not modelled"); }
template<> streamsize __copy_streambufs_eof<char, char_traits<char>>(streambuf*, streambuf*, bool&) { sx_fail("copying of stream buffers is not modelled"); return 0; }
} // namespace std
extern "C" void __cxa_rethrow() { sx_fail("exception"); }
extern "C" int isprint(int c) { return c >= 0x20 && c < 0x7f ? 1 : 0; }

// standard output: written to nothing
extern char sx_cout_mem[] __asm__("_ZSt4cout");
alignas(std::ostream) char sx_cout_mem[sizeof(std::ostream)];
