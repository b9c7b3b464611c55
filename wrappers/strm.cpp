#include "common.h"
#include <sstream>
int std::ios_base::xalloc() throw() { static int next = 0; return next++; }
extern "C" int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" __attribute__((used)) const int bf_streams_modelled = 1;
// (declared extern by the library header)
namespace std { template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize); template basic_ostream<wchar_t>& __ostream_insert(basic_ostream<wchar_t>&, const wchar_t*, streamsize); }
using namespace ipx;
template <class A> static A read(const char* t, size_t n) { error_code e = NOERR; std::string s(t, n); A a = A::parse(s, e); if (e != NOERR) __builtin_trap(); return a; }
template <class N> struct Net { static N read(const char* t, size_t n) { error_code e = NOERR; std::string s(t, n); N a = N::parse(s, e, true); if (e != NOERR) __builtin_trap(); return a; } };
template <class C> static bool is(const std::basic_string<C>& got, size_t& at, const std::string& want) {
    if (got.size() < at + want.size()) return false;
    for (size_t i = 0; i < want.size(); ++i) if (got[at + i] != C((unsigned char) want[i])) return false;
    at += want.size();
    return true;
}
static std::string upper(std::string s) {
    for (size_t i = 0; i < s.size() && s[i] != '%'; ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = char(s[i] - 32);
    return s;
}
// m: 0 nothing, 1 full, 2 compact, 3 compressed, as the last manipulators before the insertion; 'prior': slot value before
template <class C> static void apply(std::basic_ostream<C>& o, u32 m) {
    if (m == 1) o << full; else if (m == 2) o << compact; else if (m == 3) o << compressed;
}
static format pick(u32 m) { return m == 1 ? format::full : m == 2 ? format::compact : format::compressed; }

// any slot contents before; last manipulator 'm' (1..3); flags, other slots and error state are whatever they are
template <class C, class A, bool up> static int insert_as(const A& a, const A& b, long junk, u32 m, u32 fl, u32 width) {
    std::basic_ostream<C> o;
    const int slot = stream_index(), other = network_strict_index();
    REQUIRE(slot != other);
    o.iword(slot) = m == 0 ? 0 : junk;
    o.iword(other) = junk;
    o.flags(std::ios_base::fmtflags(fl));
    apply(o, m);
    o.width(width);
    o << a;
    std::string wa = a.to_string(pick(m)), wb = b.to_string();
    if (up) { wa = upper(wa); wb = upper(wb); }
    size_t at = 0;
    const bool left = (std::ios_base::fmtflags(fl) & std::ios_base::adjustfield) == std::ios_base::left;
    const std::string pad(width > wa.size() ? width - wa.size() : 0, ' ');
    if (!left) REQUIRE(is(o.buf.text, at, pad));
    REQUIRE(is(o.buf.text, at, wa));
    if (left) REQUIRE(is(o.buf.text, at, pad));
    REQUIRE(at == o.buf.text.size());
    REQUIRE(o.iword(slot) == 0);
    REQUIRE(o.iword(other) == junk);
    REQUIRE(o.rdstate() == std::ios_base::goodbit);
    REQUIRE(o.flags() == std::ios_base::fmtflags(fl));
    o << b;
    REQUIRE(is(o.buf.text, at, wb));
    REQUIRE(at == o.buf.text.size());
    REQUIRE(o.iword(slot) == 0);
    return 0;
}
template <class C, class A> static int insert(const A& a, const A& b, long junk, u32 m, u32 fl, u32 width) {
    if (std::ios_base::fmtflags(fl) & std::ios_base::uppercase) return insert_as<C, A, true>(a, b, junk, m, fl, width);
    return insert_as<C, A, false>(a, b, junk, m, fl, width);
}
template <class A> static int insert_any(const A& a, const A& b, long junk, u32 m, u32 fl, u32 width, u32 c) {
    switch (c) {
        case 0: return insert<char>(a, b, junk, m, fl, width);
        case 1: return insert<wchar_t>(a, b, junk, m, fl, width);
        case 2: return insert<char16_t>(a, b, junk, m, fl, width);
        default: return insert<char32_t>(a, b, junk, m, fl, width);
    }
}
#define INSERT(name, A, R) ENTRY int name(const char* p, size_t n, const char* q, size_t k, u64 junk, u32 m, u32 fl, u32 width, u32 c) { return insert_any<A>(R(p, n), R(q, k), long(junk), m, fl, width, c); }
INSERT(ins_a4, ipv4_address, read<ipv4_address>)
INSERT(ins_a6, ipv6_address, read<ipv6_address>)
INSERT(ins_aa, ip_address, read<ip_address>)
INSERT(ins_n4, ipv4_network, Net<ipv4_network>::read)
INSERT(ins_n6, ipv6_network, Net<ipv6_network>::read)
INSERT(ins_na, ip_network, Net<ip_network>::read)

// the manipulators themselves: from any contents of the slots to the documented one, nothing else changed
template <class C> static int manip(long junk, u32 fl) {
    std::basic_ostream<C> o;
    const int slot = stream_index(), other = network_strict_index();
    for (u32 m = 1; m <= 3; ++m) {
        o.iword(slot) = junk; o.iword(other) = junk; o.flags(std::ios_base::fmtflags(fl));
        apply(o, m);
        REQUIRE(o.iword(other) == junk && o.flags() == std::ios_base::fmtflags(fl) && o.rdstate() == std::ios_base::goodbit && o.buf.text.empty() && o.width() == 0);
    }
    std::basic_istream<C> i;
    i.iword(slot) = junk; i.iword(other) = junk; i.flags(std::ios_base::fmtflags(fl));
    i >> strict;
    REQUIRE(i.iword(slot) == junk && i.flags() == std::ios_base::fmtflags(fl) && i.rdstate() == std::ios_base::goodbit);
    i.iword(other) = junk;
    i >> non_strict;
    REQUIRE(i.iword(slot) == junk && i.flags() == std::ios_base::fmtflags(fl) && i.rdstate() == std::ios_base::goodbit);
    return 0;
}
ENTRY int manips(u64 junk, u32 fl, u32 c) {
    switch (c) { case 0: return manip<char>(long(junk), fl); case 1: return manip<wchar_t>(long(junk), fl); case 2: return manip<char16_t>(long(junk), fl); default: return manip<char32_t>(long(junk), fl); }
}

// ---- extraction ----
template <class A> struct one { static A parse(const std::string& s, error_code& e, bool) { return A::parse(s, e); } };
template <> struct one<ipv4_network> { static ipv4_network parse(const std::string& s, error_code& e, bool st) { return ipv4_network::parse(s, e, st); } };
template <> struct one<ipv6_network> { static ipv6_network parse(const std::string& s, error_code& e, bool st) { return ipv6_network::parse(s, e, st); } };
template <> struct one<ip_network> { static ip_network parse(const std::string& s, error_code& e, bool st) { return ip_network::parse(s, e, st); } };
template <class C> static void fill(std::basic_istream<C>& i, const char* p, size_t n) { for (size_t k = 0; k < n; ++k) i.buf.text.push_back(C((unsigned char) p[k])); }
// m: 0 nothing (slot at its default), 1 strict, 2 non_strict from any slot contents; net: the object consumes the manipulator
template <class C, class A> static int extract(const char* p, size_t n, const char* q, size_t k, long junk, u32 m, u32 fl, bool net) {
    std::basic_istream<C> i;
    const int slot = stream_index(), mine = network_strict_index();
    i.iword(slot) = junk;
    i.iword(mine) = m == 0 ? 0 : junk;
    i.flags(std::ios_base::fmtflags(fl) | std::ios_base::skipws);
    const std::ios_base::fmtflags before = i.flags();
    fill(i, p, n);
    fill(i, "  ", 2);
    fill(i, q, k);
    if (m == 1) i >> strict; else if (m == 2) i >> non_strict;
    A a{};
    i >> a;
    error_code e = NOERR;
    const A want = one<A>::parse(std::string(p, n), e, m != 2);
    REQUIRE(i.fail() == (e != NOERR));
    REQUIRE(!i.bad());
    REQUIRE(i.iword(slot) == junk);
    REQUIRE(!net || i.iword(mine) == 0);
    REQUIRE(i.flags() == before);
    REQUIRE(i.buf.pos == n);
    if (e == NOERR) { REQUIRE(a == want); }
    i.clear();
    i >> a;
    e = NOERR;
    const A want2 = one<A>::parse(std::string(q, k), e, true);
    if (net) {
        REQUIRE(i.fail() == (e != NOERR));
        if (e == NOERR) { REQUIRE(a == want2); }
    }
    REQUIRE(i.eof());
    i.clear();
    i >> a;  // nothing left
    REQUIRE(i.fail());
    return 0;
}
template <class A> static int extract_any(const char* p, size_t n, const char* q, size_t k, long junk, u32 m, u32 fl, u32 c, bool net) {
    switch (c) {
        case 0: return extract<char, A>(p, n, q, k, junk, m, fl, net);
        case 1: return extract<wchar_t, A>(p, n, q, k, junk, m, fl, net);
        case 2: return extract<char16_t, A>(p, n, q, k, junk, m, fl, net);
        default: return extract<char32_t, A>(p, n, q, k, junk, m, fl, net);
    }
}
#define EXTRACT(name, A, NET) ENTRY int name(const char* p, size_t n, const char* q, size_t k, u64 junk, u32 m, u32 fl, u32 c) { return extract_any<A>(p, n, q, k, long(junk), m, fl, c, NET); }
EXTRACT(ext_a4, ipv4_address, false)
EXTRACT(ext_a6, ipv6_address, false)
EXTRACT(ext_aa, ip_address, false)
EXTRACT(ext_n4, ipv4_network, true)
EXTRACT(ext_n6, ipv6_network, true)
EXTRACT(ext_na, ip_network, true)
// a stream that has failed stays failed
template <class C, class A> static int after(const char* p, size_t n, u32 state) {
    std::basic_istream<C> i;
    fill(i, p, n);
    i.clear(std::ios_base::iostate(state));
    A a{};
    i >> a;
    REQUIRE(i.fail());
    return 0;
}
ENTRY int failed(const char* p, size_t n, u32 state, u32 k) {
    switch (k) {
        case 0: return after<char, ipv4_address>(p, n, state);
        case 1: return after<char, ipv6_address>(p, n, state);
        case 2: return after<wchar_t, ip_address>(p, n, state);
        case 3: return after<char, ipv4_network>(p, n, state);
        case 4: return after<char16_t, ipv6_network>(p, n, state);
        default: return after<char32_t, ip_network>(p, n, state);
    }
}
