// Model of the standard streams, for the analysis of the library's stream operators: what the standard says of
// flags, slots, field width, error state and formatted words.  The library's operators are lowered against it.
#pragma once
#include <string>
#include <bits/ios_base.h>
#include <cstddef>
namespace std {
template <class C, class Tr> struct bf_buf {
    basic_string<C, Tr> text;
    size_t pos;
    bf_buf() : pos(0) {}
    streamsize sputn(const C* s, streamsize n) { text.append(s, (size_t) n); return n; }
    typename Tr::int_type sputc(C c) { text.push_back(c); return Tr::to_int_type(c); }
    typename Tr::int_type sgetc() const { return pos < text.size() ? Tr::to_int_type(text[pos]) : Tr::eof(); }
    typename Tr::int_type sbumpc() { return pos < text.size() ? Tr::to_int_type(text[pos++]) : Tr::eof(); }
    typename Tr::int_type snextc() { if (pos < text.size()) ++pos; return sgetc(); }
};
template <class C, class Tr> struct bf_ios {
    typedef std::ios_base ios_base;
    typedef C char_type;
    typedef Tr traits_type;
    typedef int iostate_rep;
    long words[4];
    ios_base::fmtflags fl;
    int st;
    streamsize wid;
    C fil;
    bf_buf<C, Tr> buf;
    bf_ios() : words(), fl(ios_base::skipws), st(0), wid(0), fil(C(' ')) {}
    long& iword(int i) { if (i < 0 || i >= 4) __builtin_trap(); return words[i]; }
    ios_base::fmtflags flags() const { return fl; }
    ios_base::fmtflags flags(ios_base::fmtflags f) { auto o = fl; fl = f; return o; }
    ios_base::fmtflags setf(ios_base::fmtflags f) { auto o = fl; fl = fl | f; return o; }
    ios_base::fmtflags setf(ios_base::fmtflags f, ios_base::fmtflags m) { auto o = fl; fl = (fl & ~m) | (f & m); return o; }
    void unsetf(ios_base::fmtflags f) { fl = fl & ~f; }
    streamsize width() const { return wid; }
    streamsize width(streamsize w) { auto o = wid; wid = w; return o; }
    C fill() const { return fil; }
    C fill(C c) { auto o = fil; fil = c; return o; }
    bf_buf<C, Tr>* rdbuf() { return &buf; }
    ios_base::iostate rdstate() const { return ios_base::iostate(st); }
    void clear(ios_base::iostate s = ios_base::goodbit) { st = int(s); }
    void setstate(ios_base::iostate s) { st |= int(s); }
    void _M_setstate(ios_base::iostate s) { st |= int(s); }
    bool good() const { return st == 0; }
    bool eof() const { return (st & int(ios_base::eofbit)) != 0; }
    bool fail() const { return (st & int(ios_base::failbit | ios_base::badbit)) != 0; }
    bool bad() const { return (st & int(ios_base::badbit)) != 0; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    C widen(char c) const { return C((unsigned char) c); }
    char narrow(C c, char d) const { return c >= 0 && c < 128 ? char(c) : d; }
};
template <class C, class Tr> class basic_ostream : public bf_ios<C, Tr> {
public:
    struct sentry { bool ok; explicit sentry(basic_ostream& o) : ok(o.good()) { if (!ok) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& put(C c) { sentry k(*this); if (k) this->buf.sputc(c); return *this; }
    basic_ostream& write(const C* s, streamsize n) { sentry k(*this); if (k) this->buf.sputn(s, n); return *this; }
    basic_ostream& flush() { return *this; }
};
template <class C, class Tr> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, C c) { return __ostream_insert(o, &c, 1); }
template <class C, class Tr> basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, const C* s) { return __ostream_insert(o, s, (streamsize) Tr::length(s)); }
template <class C> constexpr bool bf_space(C c) { return c == C(' ') || c == C('\t') || c == C('\n') || c == C('\v') || c == C('\f') || c == C('\r'); }
template <class C, class Tr> class basic_istream : public bf_ios<C, Tr> {
public:
    streamsize got;
    basic_istream() : got(0) {}
    struct sentry {
        bool ok;
        explicit sentry(basic_istream& i, bool noskip = false) : ok(false) {
            if (i.good()) {
                if (!noskip && (i.flags() & ios_base::skipws)) while (i.buf.pos < i.buf.text.size() && bf_space(i.buf.text[i.buf.pos])) ++i.buf.pos;
                if (!noskip && (i.flags() & ios_base::skipws) && i.buf.pos == i.buf.text.size()) i.setstate(ios_base::eofbit);
            }
            if (i.good()) ok = true; else i.setstate(ios_base::failbit);
        }
        explicit operator bool() const { return ok; }
    };
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    typename Tr::int_type peek() { sentry k(*this, true); if (!k) return Tr::eof(); auto c = this->buf.sgetc(); if (Tr::eq_int_type(c, Tr::eof())) this->setstate(ios_base::eofbit); return c; }
    typename Tr::int_type get() { sentry k(*this, true); if (!k) return Tr::eof(); auto c = this->buf.sbumpc(); if (Tr::eq_int_type(c, Tr::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); return c; }
};
// [string.io]: skip white space, take units up to the width or white space, width back to 0, fail when none
template <class C, class Tr> basic_istream<C, Tr>& bf_word(basic_istream<C, Tr>& i, basic_string<C, Tr>& s) {
    typename basic_istream<C, Tr>::sentry k(i, false);
    if (k) {
        s.clear();
        const size_t most = i.width() > 0 ? size_t(i.width()) : size_t(-1);
        while (s.size() < most) {
            if (i.buf.pos == i.buf.text.size()) { i.setstate(ios_base::eofbit); break; }
            const C c = i.buf.text[i.buf.pos];
            if (bf_space(c)) break;
            s.push_back(c);
            ++i.buf.pos;
        }
        i.width(0);
        if (s.empty()) i.setstate(ios_base::failbit);
    }
    return i;
}
inline basic_istream<char, char_traits<char>>& operator>>(basic_istream<char, char_traits<char>>& i, basic_string<char>& s) { return bf_word(i, s); }
inline basic_istream<wchar_t, char_traits<wchar_t>>& operator>>(basic_istream<wchar_t, char_traits<wchar_t>>& i, basic_string<wchar_t>& s) { return bf_word(i, s); }
inline basic_istream<char16_t, char_traits<char16_t>>& operator>>(basic_istream<char16_t, char_traits<char16_t>>& i, basic_string<char16_t>& s) { return bf_word(i, s); }
inline basic_istream<char32_t, char_traits<char32_t>>& operator>>(basic_istream<char32_t, char_traits<char32_t>>& i, basic_string<char32_t>& s) { return bf_word(i, s); }
// message building (exceptions): the text is not modelled
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class Tr, class A> class basic_ostringstream : public basic_ostream<C, Tr> { public: basic_string<C, Tr, A> str() const { return basic_string<C, Tr, A>(); } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class Tr, class A, class X> basic_ostringstream<C, Tr, A>& operator<<(basic_ostringstream<C, Tr, A>& o, const X&) { return o; }
struct bf_ignored {};
inline bf_ignored setw(int) { return bf_ignored(); }
template <class C> inline bf_ignored setfill(C) { return bf_ignored(); }
}
