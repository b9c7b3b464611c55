// Scope identifiers: kept verbatim, rejected whole, numeric exactly when they are numbers.
#include "common.h"
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace spec;
typedef ipx::ipv6_address A6; typedef ipx::ip_address AA; typedef ipx::ipv6_network N6;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
#define MAXLEN IPADDRESS_IPV6_SCOPE_MAX_LENGTH
#if __cplusplus >= 201703L
#define VIEW(C, t, n) std::basic_string_view<C>(t, n)
#else
#define VIEW(C, t, n) std::basic_string<C>(t, n)
#endif
// the scope is exactly these characters
template <class S, class C> static int is(const S& s, const C* t, size_t n) {
    REQUIRE(s.has_string() == (n != 0)); REQUIRE((bool)s == (n != 0));
    const std::string x = s.get_string();
    REQUIRE(x.size() == n);
    for (size_t i = 0; i < n; ++i) REQUIRE(x[i] == (char)t[i]);
    const std::string y = (std::string)s;
    REQUIRE(y.size() == n);
    for (size_t i = 0; i < n; ++i) REQUIRE(y[i] == (char)t[i]);
    if (n == 0) { REQUIRE(!s.has_uint32()); REQUIRE(s.get_uint32() == 0); }
    return 0;
}
static void old(A6& x, const char* o, size_t n) { ipx::error_code e = NOERR; x.set_scope_id(std::string(o, n), e); }
static void old(AA& x, const char* o, size_t n) { ipx::error_code e = NOERR; x.set_scope_id(std::string(o, n), e); }
template <class X, class S> static void coded(X& x, const S& s, ipx::error_code& c) { x.set_scope_id(s, c); }
template <class X, class S> static void thrown(X& x, const S& s, ipx::error_code& c) {
#ifndef IPADDRESS_NO_EXCEPTIONS
    try { x.set_scope_id(s); c = NOERR; } catch (const ipx::parse_error& e) { c = e.code(); }
#else
    x.set_scope_id(s, c);
#endif
}
template <class C, size_t N> static void arr(A6& x, const C* t, int how, ipx::error_code& c) {
    const C (&a)[N] = *reinterpret_cast<const C(*)[N]>(t);
    if (how == 4) x.set_scope_id(a, c); else thrown(x, a, c);
}
template <class C, size_t N> static void arr(AA& x, const C* t, int, ipx::error_code& c) { thrown(x, *reinterpret_cast<const C(*)[N]>(t), c); }
// how: 0 view 1 string 2 view throwing 3 string throwing 4/5 array of the largest size
template <class X, class C> static int set(X& x, const char* o, size_t no, const C* t, size_t n, int how, int code, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    if (no) old(x, o, no);
    switch (how) {
    case 0: coded(x, VIEW(C, t, n), c); break;
    case 1: coded(x, std::basic_string<C>(t, n), c); break;
    case 2: thrown(x, VIEW(C, t, n), c); break;
    case 3: thrown(x, std::basic_string<C>(t, n), c); break;
    default: arr<C, MAXLEN + 1>(x, t, how, c); break;
    }
    // code -1: any failure
    if (code < 0) REQUIRE(c != NOERR); else REQUIRE((int)c == code);
    const auto s = x.get_scope_id();
    // a rejected text leaves the scope as it was
    return code ? is(s, o, no) : is(s, t, MAXLEN ? n : 0);
}
template <class C> static int sets(const u8* a, const char* o, size_t no, const C* t, size_t n, int how, int any, int code, int stale) {
    const A6 b = addr<A6>(a);
    if (any) {
        AA x(b);
        TRY(set(x, o, no, t, n, how, code, stale));
        REQUIRE(same(x.v6().value(), a));
        return 0;
    }
    A6 x(b);
    TRY(set(x, o, no, t, n, how, code, stale));
    REQUIRE(same(x, a));
    return 0;
}
// the address text in front is digits of one group and '::'
template <class C> static int parse(const C* t, size_t n, size_t at, int how, int any, int code, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    A6 x;
    if (any) { const AA y = how ? AA::parse(std::basic_string<C>(t, n), c) : AA::parse(VIEW(C, t, n), c); if (code < 0) REQUIRE(c != NOERR); else REQUIRE((int)c == code); if (code) { REQUIRE(y == AA()); return 0; } x = y.v6().value(); }
    else { x = how ? A6::parse(std::basic_string<C>(t, n), c) : A6::parse(VIEW(C, t, n), c); if (code < 0) REQUIRE(c != NOERR); else REQUIRE((int)c == code); }
    if (code) { REQUIRE(x == A6()); REQUIRE(!x.get_scope_id()); return 0; }
    return is(x.get_scope_id(), t + at, n - at);
}
#define ALL(X, C) \
ENTRY int sc_set_##X(const u8* a, const char* o, size_t no, const C* t, size_t n, int how, int any, int code, int s) { return sets<C>(a, o, no, t, n, how, any, code, s); } \
ENTRY int sc_parse_##X(const C* t, size_t n, size_t at, int how, int any, int code, int s) { return parse<C>(t, n, at, how, any, code, s); }
ALL(c, char)
ALL(w, wchar_t)
ALL(c16, char16_t)
ALL(c32, char32_t)
#if __cpp_char8_t >= 201811L
ALL(c8, char8_t)
#endif
// copies, formatting, comparison, networks
ENTRY int sc_keep(const u8* a, const char* t, size_t n) {
    A6 x = addr<A6>(a); old(x, t, n);
    const A6 y(x); A6 z; z = x; AA p(x), q; q = AA(y);
    TRY(is(y.get_scope_id(), t, n)); TRY(is(z.get_scope_id(), t, n)); TRY(is(p.get_scope_id(), t, n)); TRY(is(q.v6().value().get_scope_id(), t, n));
    REQUIRE(x == y); REQUIRE(x.get_scope_id() == y.get_scope_id()); REQUIRE(!(x != z));
    REQUIRE(x.hash() == z.hash());
    A6 w = addr<A6>(a); w.swap(x);
    TRY(is(w.get_scope_id(), t, n)); TRY(is(x.get_scope_id(), t, 0));
    REQUIRE((n == 0) == (w == x));
    ipx::error_code c = NOERR;
    const N6 net = N6::from_address(w, c, 128);
    REQUIRE(c == NOERR);
    TRY(is(net.network_address().get_scope_id(), t, n));
    return 0;
}
ENTRY int sc_text(const u8* a, const char* t, size_t n, int fmt) {
    A6 x = addr<A6>(a); const std::string plain = x.to_string(fmt == 0 ? ipx::format::full : fmt == 1 ? ipx::format::compact : ipx::format::compressed);
    old(x, t, n);
    const std::string s = x.to_string(fmt == 0 ? ipx::format::full : fmt == 1 ? ipx::format::compact : ipx::format::compressed);
    const size_t k = plain.size();
    REQUIRE(s.size() == k + (n ? n + 1 : 0));
    for (size_t i = 0; i < k; ++i) REQUIRE(s[i] == plain[i]);
    if (n) REQUIRE(s[k] == '%');
    for (size_t i = 0; i < n; ++i) REQUIRE(s[k + 1 + i] == t[i]);
    return 0;
}
// the number a scope denotes
ENTRY int sc_num(const char* t, size_t n, int has) {
    A6 x; old(x, t, n);
    const auto s = x.get_scope_id();
    REQUIRE(s.has_string() == (n != 0));
    REQUIRE(s.has_uint32() == (has != 0));
    u32 v = 0;
    if (has) for (size_t i = 0; i < n; ++i) v = v * 10 + (u32)(t[i] - '0');
    REQUIRE(s.get_uint32() == v); REQUIRE((uint32_t)s == v);
    return 0;
}
