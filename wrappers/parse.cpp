// Parsing entries: a text, the way it is handed over, and what has to come out.
#include "common.h"
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
// how: 0 view, 1 string, 2 view throwing, 3 string throwing, 4/5 array of 24 (code/throwing), 6/7 array of 72
#if __cplusplus >= 201703L
#define VIEW(C, t, n) std::basic_string_view<C>(t, n)
#else
#define VIEW(C, t, n) std::basic_string<C>(t, n)
#endif
template <class R, class C> struct call {
    template <class X> static R coded(const X& x, ipx::error_code& code) { return R::parse(x, code); }
    template <class X> static R thrown(const X& x, ipx::error_code& code) {
#ifndef IPADDRESS_NO_EXCEPTIONS
        try { R r = R::parse(x); code = NOERR; return r; } catch (const ipx::parse_error& e) { code = e.code(); }
        return R();
#else
        return R::parse(x, code);
#endif
    }
    static R parse(const C* t, size_t n, int how, ipx::error_code& code) {
        switch (how) {
        case 0: return coded(VIEW(C, t, n), code);
        case 1: return coded(std::basic_string<C>(t, n), code);
        case 2: return thrown(VIEW(C, t, n), code);
        case 3: return thrown(std::basic_string<C>(t, n), code);
        case 4: return coded(*reinterpret_cast<const C(*)[24]>(t), code);
        case 5: return thrown(*reinterpret_cast<const C(*)[24]>(t), code);
        case 6: return coded(*reinterpret_cast<const C(*)[72]>(t), code);
        default: return thrown(*reinterpret_cast<const C(*)[72]>(t), code);
        }
    }
};
template <class R, class C> struct ncall {
    template <class X> static R coded(const X& x, bool strict, ipx::error_code& code) { return R::parse(x, code, strict); }
    template <class X> static R thrown(const X& x, bool strict, ipx::error_code& code) {
#ifndef IPADDRESS_NO_EXCEPTIONS
        try { R r = R::parse(x, strict); code = NOERR; return r; } catch (const ipx::parse_error& e) { code = e.code(); }
        return R();
#else
        return R::parse(x, code, strict);
#endif
    }
    static R parse(const C* t, size_t n, int how, bool strict, ipx::error_code& code) {
        switch (how) {
        case 0: return coded(VIEW(C, t, n), strict, code);
        case 1: return coded(std::basic_string<C>(t, n), strict, code);
        case 2: return thrown(VIEW(C, t, n), strict, code);
        case 3: return thrown(std::basic_string<C>(t, n), strict, code);
        case 4: return coded(*reinterpret_cast<const C(*)[24]>(t), strict, code);
        case 5: return thrown(*reinterpret_cast<const C(*)[24]>(t), strict, code);
        case 6: return coded(*reinterpret_cast<const C(*)[72]>(t), strict, code);
        default: return thrown(*reinterpret_cast<const C(*)[72]>(t), strict, code);
        }
    }
};
template <class C> static unsigned digit(C c) { return c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0'; }
// the octets the digits at the given places denote
template <class C> static void octets(const C* t, const u8* pos, u8* o) {
    for (int i = 0; i < 4; ++i) {
        const C* s = t + pos[2 * i];
        unsigned v = 0;
        for (int k = 0; k < pos[2 * i + 1]; ++k) v = v * 10 + (unsigned)(s[k] - '0');
        o[i] = (u8)v;
    }
}
// ---- IPv4: pos lists (start, length) of the four octets
template <class C> static int v4(const C* t, size_t n, int how, int code, const u8* pos, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const A4 r = call<A4, C>::parse(t, n, how, c);
    REQUIRE((int)c == code);
    u8 w[4] = {0, 0, 0, 0};
    if (code == 0) octets(t, pos, w);
    REQUIRE(same(r, w));
    return 0;
}
// ---- IPv6: groups of hex digits
struct groups { u8 at[8], len[8]; u8 v4at; u8 scope_at, scope_len; u8 pos[8]; };
template <class C> static void bytes6(const C* t, const groups& g, u8* w) {
    for (int i = 0; i < 8; ++i) {
        unsigned v = 0;
        for (int k = 0; k < g.len[i]; ++k) v = v * 16 + digit(t[g.at[i] + k]);
        w[2 * i] = (u8)(v >> 8); w[2 * i + 1] = (u8)v;
    }
    if (g.v4at) octets(t, g.pos, w + 12);
}
template <class C> static int is6(const A6& r, const C* t, const groups& g) {
    u8 w[16]; bytes6(t, g, w);
    REQUIRE(same(r, w));
    const auto s = r.get_scope_id();
    REQUIRE(s.has_string() == (g.scope_len != 0)); REQUIRE((bool)s == (g.scope_len != 0));
    const std::string x = s.get_string();
    REQUIRE(x.size() == g.scope_len);
    for (int k = 0; k < g.scope_len; ++k) REQUIRE(x[k] == (char)t[g.scope_at + k]);
    return 0;
}
static int zero6(const A6& r) {
    for (int i = 0; i < 16; ++i) REQUIRE(r.bytes()[i] == 0);
    REQUIRE(!r.get_scope_id()); REQUIRE(r == A6());
    return 0;
}
template <class C> static int v6(const C* t, size_t n, int how, int code, const groups* g, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const A6 r = call<A6, C>::parse(t, n, how, c);
    REQUIRE((int)c == code);
    if (code) return zero6(r);
    return is6(r, t, *g);
}
// any outcome but success, and a neutral result
template <class C> static int v6bad(const C* t, size_t n, int how, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const A6 r = call<A6, C>::parse(t, n, how, c);
    REQUIRE(c != NOERR);
    return zero6(r);
}
// ---- a text and the same text in another character type or through another entry point
template <class R, class C> struct literal { static R parse(const C* t, size_t n); };
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
#define UDL(C) \
template <> inline A4 literal<A4, C>::parse(const C* t, size_t n) { return ipx::operator""_ipv4(t, n); } \
template <> inline A6 literal<A6, C>::parse(const C* t, size_t n) { return ipx::operator""_ipv6(t, n); } \
template <> inline AA literal<AA, C>::parse(const C* t, size_t n) { return ipx::operator""_ip(t, n); } \
template <> inline N4 literal<N4, C>::parse(const C* t, size_t n) { return ipx::operator""_ipv4_net(t, n); } \
template <> inline N6 literal<N6, C>::parse(const C* t, size_t n) { return ipx::operator""_ipv6_net(t, n); } \
template <> inline NA literal<NA, C>::parse(const C* t, size_t n) { return ipx::operator""_net(t, n); }
UDL(char) UDL(wchar_t) UDL(char16_t) UDL(char32_t)
#endif
template <class R, class C> struct enter {
    static R parse(const C* t, size_t n, int how, ipx::error_code& code) {
#if !defined(IPADDRESS_NONTYPE_TEMPLATE_PARAMETER) && !defined(IPADDRESS_NO_EXCEPTIONS)
        if (how == 8) {
            try { R r = literal<R, C>::parse(t, n); code = NOERR; return r; } catch (const ipx::parse_error& e) { code = e.code(); }
            return R();
        }
#endif
        return call<R, C>::parse(t, n, how, code);
    }
};
template <class R, class C> static int agree(const char* t, const C* u, size_t n, int how, int s1, int s2) {
    ipx::error_code a = (ipx::error_code)s1, b = (ipx::error_code)s2;
    const R x = call<R, char>::parse(t, n, 0, a);
    const R y = enter<R, C>::parse(u, n, how, b);
    REQUIRE(a == b);
    REQUIRE(x == y);
    return 0;
}
// not an ASCII text: never accepted
template <class R, class C> static int foreign(const C* u, size_t n, int how, int stale) {
    ipx::error_code b = (ipx::error_code)stale;
    const R y = enter<R, C>::parse(u, n, how, b);
    REQUIRE(b != NOERR);
    REQUIRE(y == R());
    return 0;
}
// ---- networks
template <class C> static int n4(const C* t, size_t n, int how, int strict, int code, const u8* pos, size_t plen, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const N4 r = ncall<N4, C>::parse(t, n, how, strict != 0, c);
    REQUIRE((int)c == code);
    if (code) { REQUIRE(r == N4()); return 0; }
    u8 w[4]; octets(t, pos, w);
    if (strict) REQUIRE(!hostbits(w, 4, plen));
    return netis<A4>(r, w, plen);
}
template <class C> static int n6(const C* t, size_t n, int how, int strict, int code, const groups* g, size_t plen, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const N6 r = ncall<N6, C>::parse(t, n, how, strict != 0, c);
    REQUIRE((int)c == code);
    if (code) { REQUIRE(r == N6()); return 0; }
    u8 w[16]; bytes6(t, *g, w);
    if (strict) REQUIRE(!hostbits(w, 16, plen));
    return netis<A6>(r, w, plen);
}
template <class C> static int n6bad(const C* t, size_t n, int how, int strict, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const N6 r = ncall<N6, C>::parse(t, n, how, strict != 0, c);
    REQUIRE(c != NOERR);
    REQUIRE(r == N6());
    return 0;
}
// ---- version-independent: the IPv4 result if the text is IPv4, else the IPv6 result
template <class C> static int anya(const C* t, size_t n, int how, int version, int code, const u8* pos, const groups* g, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const AA r = call<AA, C>::parse(t, n, how, c);
    REQUIRE((int)c == code);
    if (code) { REQUIRE(r == AA()); REQUIRE(r.is_v4()); REQUIRE(r.v4().value().to_uint() == 0); return 0; }
    if (version == 4) {
        REQUIRE(r.is_v4()); REQUIRE(!r.is_v6()); REQUIRE(r.version() == ipx::ip_version::V4);
        u8 w[4]; octets(t, pos, w);
        REQUIRE(same(r.v4().value(), w)); REQUIRE(!r.v6());
        return 0;
    }
    REQUIRE(r.is_v6()); REQUIRE(!r.is_v4()); REQUIRE(r.version() == ipx::ip_version::V6); REQUIRE(!r.v4());
    return is6(r.v6().value(), t, *g);
}
template <class C> static int anyn(const C* t, size_t n, int how, int strict, int version, int code, const u8* pos, const groups* g, size_t plen, int stale) {
    ipx::error_code c = (ipx::error_code)stale;
    const NA r = ncall<NA, C>::parse(t, n, how, strict != 0, c);
    REQUIRE((int)c == code);
    if (code) { REQUIRE(r == NA()); REQUIRE(r.is_v4()); return 0; }
    if (version == 4) {
        REQUIRE(r.is_v4()); REQUIRE(!r.v6());
        u8 w[4]; octets(t, pos, w);
        return netis<A4>(r.v4().value(), w, plen);
    }
    REQUIRE(r.is_v6()); REQUIRE(!r.v4());
    u8 w[16]; bytes6(t, *g, w);
    return netis<A6>(r.v6().value(), w, plen);
}
#define ALL(X, C) \
ENTRY int v4_##X(const C* t, size_t n, int how, int code, const u8* pos, int s) { return v4<C>(t, n, how, code, pos, s); } \
ENTRY int v6_##X(const C* t, size_t n, int how, int code, const groups* g, int s) { return v6<C>(t, n, how, code, g, s); } \
ENTRY int v6bad_##X(const C* t, size_t n, int how, int s) { return v6bad<C>(t, n, how, s); } \
ENTRY int n4_##X(const C* t, size_t n, int how, int strict, int code, const u8* pos, size_t p, int s) { return n4<C>(t, n, how, strict, code, pos, p, s); } \
ENTRY int n6_##X(const C* t, size_t n, int how, int strict, int code, const groups* g, size_t p, int s) { return n6<C>(t, n, how, strict, code, g, p, s); } \
ENTRY int n6bad_##X(const C* t, size_t n, int how, int strict, int s) { return n6bad<C>(t, n, how, strict, s); } \
ENTRY int aa_##X(const C* t, size_t n, int how, int v, int code, const u8* pos, const groups* g, int s) { return anya<C>(t, n, how, v, code, pos, g, s); } \
ENTRY int na_##X(const C* t, size_t n, int how, int strict, int v, int code, const u8* pos, const groups* g, size_t p, int s) { return anyn<C>(t, n, how, strict, v, code, pos, g, p, s); }
#define PAIR(K, R, X, C) \
ENTRY int agree_##K##_##X(const char* t, const C* u, size_t n, int how, int a, int b) { return agree<R, C>(t, u, n, how, a, b); } \
ENTRY int foreign_##K##_##X(const C* u, size_t n, int how, int a) { return foreign<R, C>(u, n, how, a); }
#define PAIRS(X, C) PAIR(a4, A4, X, C) PAIR(a6, A6, X, C) PAIR(aa, AA, X, C) PAIR(n4, N4, X, C) PAIR(n6, N6, X, C) PAIR(na, NA, X, C)
PAIRS(c, char)
PAIRS(w, wchar_t)
PAIRS(c16, char16_t)
PAIRS(c32, char32_t)
#if __cpp_char8_t >= 201811L
PAIRS(c8, char8_t)
#endif
ALL(c, char)
ALL(w, wchar_t)
ALL(c16, char16_t)
ALL(c32, char32_t)
#if __cpp_char8_t >= 201811L
ALL(c8, char8_t)
#endif
