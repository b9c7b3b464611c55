// Version-independent types against the type they hold: every operation done twice.
#include "common.h"
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
template <class A> struct in;
template <> struct in<A4> {
    static bool site(const A4&) { return false; }
    static bool site(const N4&) { return false; }
    static const A4* of(const AA& x, A4& o) { auto r = x.v4(); if (!r.has_value()) return 0; o = r.value(); return &o; }
    static const N4* of(const NA& x, N4& o) { auto r = x.v4(); if (!r.has_value()) return 0; o = *r; return &o; }
    static bool other(const AA& x) { return x.v6().has_value() || x.is_v6() || !x.is_v4() || x.version() != ipx::ip_version::V4; }
    static bool other(const NA& x) { return x.v6().has_value() || x.is_v6() || !x.is_v4() || x.version() != ipx::ip_version::V4; }
};
template <> struct in<A6> {
    static bool site(const A6& x) { return x.is_site_local(); }
    static bool site(const N6& x) { return x.is_site_local(); }
    static const A6* of(const AA& x, A6& o) { auto r = x.v6(); if (!r.has_value()) return 0; o = r.value(); return &o; }
    static const N6* of(const NA& x, N6& o) { auto r = x.v6(); if (!r.has_value()) return 0; o = *r; return &o; }
    static bool other(const AA& x) { return x.v4().has_value() || x.is_v4() || !x.is_v6() || x.version() != ipx::ip_version::V6; }
    static bool other(const NA& x) { return x.v4().has_value() || x.is_v4() || !x.is_v6() || x.version() != ipx::ip_version::V6; }
};
// same IPv6 scope, byte for byte
static int samescope(const A4&, const A4&) { return 0; }
static int samescope(const A6& x, const A6& y) {
    const auto s = x.get_scope_id(), t = y.get_scope_id();
    REQUIRE(s.has_string() == t.has_string());
    REQUIRE(s.get_string() == t.get_string());
    return 0;
}
// y is exactly x
template <class A> static int holds(const AA& y, const A& x) {
    REQUIRE(!in<A>::other(y));
    A o; const A* p = in<A>::of(y, o);
    REQUIRE(p != 0);
    REQUIRE(same(*p, x.bytes().data()));
    return samescope(*p, x);
}
template <class A> static int holds(const NA& y, const typename traits<A>::net& x) {
    REQUIRE(!in<A>::other(y));
    typename traits<A>::net o; const auto* p = in<A>::of(y, o);
    REQUIRE(p != 0);
    REQUIRE(p->prefixlen() == x.prefixlen());
    REQUIRE(same(p->network_address(), x.network_address().bytes().data()));
    REQUIRE(same(p->netmask(), x.netmask().bytes().data()));
    return samescope(p->network_address(), x.network_address());
}
static void scoped(A4&, int) {}
static void scoped(A6& x, int sc) {
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
    if (sc) { ipx::error_code e = NOERR; const char c = (char)sc; x.set_scope_id(std::string(1, c), e); }
#endif
}
template <class A> static A make(const u8* a, int sc) { A x = addr<A>(a); scoped(x, sc); return x; }
template <class A> static typename traits<A>::net net(const u8* a, size_t p, int sc = 0) {
    ipx::error_code e = NOERR;
    return traits<A>::net::from_address(make<A>(a, sc), e, p, false);
}
static u32 low32(const A4& x) { return x.to_uint(); }
static u32 low32(const A6& x) { return (u32)x.to_uint().lower(); }
static ipx::uint128_t all(const A4& x) { return ipx::uint128_t(x.to_uint()); }
static ipx::uint128_t all(const A6& x) { return x.to_uint(); }
// ---- addresses
template <class A> static int basic(const u8* a, int sc) {
    enum { N = traits<A>::N };
    const A x = make<A>(a, sc);
    const AA y(x);
    TRY(holds(y, x));
    REQUIRE(y.size() == x.size()); REQUIRE(y.size() == N);
    REQUIRE(eqb(y.data(), a, N));
    REQUIRE(y.to_uint32() == low32(x)); REQUIRE((uint32_t)y == low32(x));
    REQUIRE(y.to_uint128() == all(x)); REQUIRE((ipx::uint128_t)y == all(x));
    const auto s = y.get_scope_id();
    REQUIRE(s.has_string() == (N == 16 && sc != 0));
    if (!sc || N == 4) {
        TRY(holds(AA::from_bytes(x.bytes()), x));
        TRY(holds(AA(x.bytes()), x));
        TRY(holds(AA::from_uint(x.to_uint()), x));
        TRY(holds(AA::from_bytes(a, N, N == 4 ? ipx::ip_version::V4 : ipx::ip_version::V6), x));
        TRY(holds(AA::from_bytes(a, N - 2, N == 4 ? ipx::ip_version::V4 : ipx::ip_version::V6), A::from_bytes(a, N - 2)));
    }
    const AA z(y); AA q; q = y;
    TRY(holds(z, x)); TRY(holds(q, x));
    return 0;
}
ENTRY int any_basic4(const u8* a, int sc) { return basic<A4>(a, sc); }
ENTRY int any_basic6(const u8* a, int sc) { return basic<A6>(a, sc); }
template <class X, class Y> static int queries(const X& x, const Y& y, bool site) {
    REQUIRE(x.is_multicast() == y.is_multicast()); REQUIRE(x.is_private() == y.is_private());
    REQUIRE(x.is_global() == y.is_global()); REQUIRE(x.is_reserved() == y.is_reserved());
    REQUIRE(x.is_loopback() == y.is_loopback()); REQUIRE(x.is_link_local() == y.is_link_local());
    REQUIRE(x.is_unspecified() == y.is_unspecified()); REQUIRE(y.is_site_local() == site);
    return 0;
}
template <class A> static int cls(const u8* a, int sc) { const A x = make<A>(a, sc); return queries(x, AA(x), in<A>::site(x)); }
ENTRY int any_cls4(const u8* a, int sc) { return cls<A4>(a, sc); }
ENTRY int any_cls6(const u8* a, int sc) { return cls<A6>(a, sc); }
template <class A> static int clsn(const u8* a, size_t p) { const auto x = net<A>(a, p); return queries(x, NA(x), in<A>::site(x)); }
ENTRY int any_clsn4(const u8* a, size_t p) { return clsn<A4>(a, p); }
ENTRY int any_clsn6(const u8* a, size_t p) { return clsn<A6>(a, p); }
template <class O> static bool both(const O& p, const O& q) { return p.has_value() == q.has_value() && (!p.has_value() || p.value() == q.value()); }
ENTRY int any_embed4(const u8* a) {
    const AA y(addr<A4>(a));
    REQUIRE(!y.ipv4_mapped().has_value()); REQUIRE(!y.sixtofour().has_value()); REQUIRE(!y.teredo().has_value());
    return 0;
}
ENTRY int any_embed6(const u8* a, int sc) {
    const A6 x = make<A6>(a, sc); const AA y(x);
    REQUIRE(both(y.ipv4_mapped(), x.ipv4_mapped())); REQUIRE(both(y.sixtofour(), x.sixtofour()));
    const auto p = x.teredo(), q = y.teredo();
    REQUIRE(p.has_value() == q.has_value());
    if (p.has_value()) { REQUIRE(p.value().first == q.value().first); REQUIRE(p.value().second == q.value().second); }
    return 0;
}
template <class A> static int hash(const u8* a, int sc) {
    const A x = make<A>(a, sc); const AA y(x), z(y);
    REQUIRE(y.hash() == x.hash()); REQUIRE(z.hash() == y.hash());
#ifndef IPADDRESS_NO_OVERLOAD_STD
    REQUIRE(std::hash<AA>()(y) == std::hash<A>()(x));
#endif
    return 0;
}
ENTRY int any_hash4(const u8* a, int sc) { return hash<A4>(a, sc); }
ENTRY int any_hash6(const u8* a, int sc) { return hash<A6>(a, sc); }
template <class A> static int hashn(const u8* a, size_t p) {
    const auto x = net<A>(a, p); const NA y(x);
    REQUIRE(y.hash() == x.hash());
#ifndef IPADDRESS_NO_OVERLOAD_STD
    REQUIRE(std::hash<NA>()(y) == x.hash());
#endif
    return 0;
}
ENTRY int any_hashn4(const u8* a, size_t p) { return hashn<A4>(a, p); }
ENTRY int any_hashn6(const u8* a, size_t p) { return hashn<A6>(a, p); }
template <class A> static int swaps(const u8* a, const u8* b, int sa, int sb, int std_) {
    const A x = make<A>(a, sa), y = make<A>(b, sb);
    AA p(x), q(y);
#ifndef IPADDRESS_NO_OVERLOAD_STD
    if (std_) std::swap(p, q); else
#endif
    p.swap(q);
    TRY(holds(p, y)); TRY(holds(q, x));
    return 0;
}
ENTRY int any_swap4(const u8* a, const u8* b, int s, int t, int h) { return swaps<A4>(a, b, s, t, h); }
ENTRY int any_swap6(const u8* a, const u8* b, int s, int t, int h) { return swaps<A6>(a, b, s, t, h); }
ENTRY int any_swapx(const u8* a, const u8* b, int sb, int std_) {
    const A4 x = make<A4>(a, 0); const A6 y = make<A6>(b, sb);
    AA p(x), q(y);
#ifndef IPADDRESS_NO_OVERLOAD_STD
    if (std_) std::swap(p, q); else
#endif
    p.swap(q);
    TRY(holds(p, y)); TRY(holds(q, x));
    AA r(y); r = AA(x); TRY(holds(r, x));
    AA t(x); t = AA(y); TRY(holds(t, y));
    return 0;
}
// what one relation operator says: 0 == 1 != 2 < 3 > 4 <= 5 >=
template <class X> static bool rel(const X& x, const X& y, int op) {
    switch (op) { case 0: return x == y; case 1: return x != y; case 2: return x < y; case 3: return x > y; case 4: return x <= y; default: return x >= y; }
}
template <class A> static int cmps(const u8* a, const u8* b, int sa, int sb, int op) {
    const A x = make<A>(a, sa), y = make<A>(b, sb);
    REQUIRE(rel(AA(x), AA(y), op) == rel(x, y, op));
    return 0;
}
ENTRY int any_cmp4(const u8* a, const u8* b, int s, int t, int op) { return cmps<A4>(a, b, s, t, op); }
ENTRY int any_cmp6(const u8* a, const u8* b, int s, int t, int op) { return cmps<A6>(a, b, s, t, op); }
template <class A> static int cmpn(const u8* a, size_t p, const u8* b, size_t q, int op) {
    const auto x = net<A>(a, p); const auto y = net<A>(b, q);
    REQUIRE(rel(NA(x), NA(y), op) == rel(x, y, op));
    return 0;
}
ENTRY int any_cmpn4(const u8* a, size_t p, const u8* b, size_t q, int op) { return cmpn<A4>(a, p, b, q, op); }
ENTRY int any_cmpn6(const u8* a, size_t p, const u8* b, size_t q, int op) { return cmpn<A6>(a, p, b, q, op); }
// different versions: never equal, IPv4 first
template <class X> static int versions(const X& x, const X& y) {
    REQUIRE(!(x == y)); REQUIRE(x != y); REQUIRE(!(y == x)); REQUIRE(y != x);
    REQUIRE(x < y); REQUIRE(!(y < x)); REQUIRE(y > x); REQUIRE(!(x > y)); REQUIRE(x <= y); REQUIRE(!(y <= x)); REQUIRE(y >= x); REQUIRE(!(x >= y));
    return 0;
}
ENTRY int any_mixed(const u8* a, size_t p, const u8* b, size_t q, int stale) {
    const AA x(addr<A4>(a)), y(addr<A6>(b));
    TRY(versions(x, y));
    const NA m(net<A4>(a, p)), n(net<A6>(b, q));
    TRY(versions(m, n));
    REQUIRE(!m.contains(y)); REQUIRE(!n.contains(x));
    REQUIRE(!m.overlaps(n)); REQUIRE(!n.overlaps(m)); REQUIRE(!m.subnet_of(n)); REQUIRE(!n.subnet_of(m)); REQUIRE(!m.supernet_of(n)); REQUIRE(!n.supernet_of(m));
    ipx::error_code c = (ipx::error_code)stale, d = (ipx::error_code)stale;
    const auto s = m.address_exclude(n, c), t = n.address_exclude(m, d);
    REQUIRE(c == ipx::error_code::invalid_version); REQUIRE(d == ipx::error_code::invalid_version);
    REQUIRE(s.begin() == s.end()); REQUIRE(t.begin() == t.end()); REQUIRE(s.empty()); REQUIRE(t.empty());
    return 0;
}
#ifndef IPADDRESS_NO_EXCEPTIONS
ENTRY int any_mixedx(const u8* a, size_t p, const u8* b, size_t q, int way) {
    const NA m(net<A4>(a, p)), n(net<A6>(b, q));
    try { if (way) (void)m.address_exclude(n); else (void)n.address_exclude(m); return __LINE__; }
    catch (const ipx::logic_error& e) { REQUIRE(e.code() == ipx::error_code::invalid_version); }
    return 0;
}
#endif
// ---- text
static ipx::format fmt_of(int f) { return f == 0 ? ipx::format::full : f == 1 ? ipx::format::compact : ipx::format::compressed; }
template <class X, class Y> static int texts(const X& x, const Y& y, int fmt, int how) {
    switch (how) {
    case 0: REQUIRE(x.to_string(fmt_of(fmt)) == y.to_string(fmt_of(fmt))); break;
    case 1: REQUIRE(x.to_wstring(fmt_of(fmt)) == y.to_wstring(fmt_of(fmt))); break;
    case 2: REQUIRE(x.to_u16string(fmt_of(fmt)) == y.to_u16string(fmt_of(fmt))); break;
    case 3: REQUIRE(x.to_u32string(fmt_of(fmt)) == y.to_u32string(fmt_of(fmt))); break;
#if __cpp_char8_t >= 201811L
    case 4: REQUIRE(x.to_u8string(fmt_of(fmt)) == y.to_u8string(fmt_of(fmt))); break;
    case 5: REQUIRE((std::u8string)x == (std::u8string)y); break;
    case 6: REQUIRE(x.to_u8string() == y.to_u8string()); break;
#endif
    case 7: REQUIRE((std::string)x == (std::string)y); break;
    case 8: REQUIRE((std::wstring)x == (std::wstring)y); break;
    case 9: REQUIRE((std::u16string)x == (std::u16string)y); break;
    case 10: REQUIRE((std::u32string)x == (std::u32string)y); break;
    case 11: REQUIRE(x.to_string() == y.to_string()); break;
    case 12: REQUIRE(x.to_wstring() == y.to_wstring()); break;
    case 13: REQUIRE(x.to_u16string() == y.to_u16string()); break;
    case 14: REQUIRE(x.to_u32string() == y.to_u32string()); break;
#ifndef IPADDRESS_NO_OVERLOAD_STD
    case 15: REQUIRE(std::to_string(x) == std::to_string(y)); break;
    case 16: REQUIRE(std::to_wstring(x) == std::to_wstring(y)); break;
#endif
    default: break;
    }
    return 0;
}
template <class A> static int str(const u8* a, int sc, int fmt, int how) {
    const A x = make<A>(a, sc); const AA y(x);
    if (how == 17) { REQUIRE(x.reverse_pointer() == y.reverse_pointer()); return 0; }
    return texts(x, y, fmt, how);
}
ENTRY int any_str4(const u8* a, int sc, int fmt, int how) { return str<A4>(a, sc, fmt, how); }
ENTRY int any_str6(const u8* a, int sc, int fmt, int how) { return str<A6>(a, sc, fmt, how); }
template <class A> static int strn(const u8* a, size_t p, int fmt, int how) { const auto x = net<A>(a, p); return texts(x, NA(x), fmt, how); }
ENTRY int any_strn4(const u8* a, size_t p, int fmt, int how) { return strn<A4>(a, p, fmt, how); }
ENTRY int any_strn6(const u8* a, size_t p, int fmt, int how) { return strn<A6>(a, p, fmt, how); }
// ---- scope of a version-independent address
template <class S> static int scope_(const u8* a, int v, const S& s, int stale, int thrown) {
    ipx::error_code c = (ipx::error_code)stale, d = (ipx::error_code)stale;
    if (v == 4) {
        const A4 x = addr<A4>(a); AA y(x);
        if (thrown) y.set_scope_id(s); else { y.set_scope_id(s, c); REQUIRE(c == NOERR); }
        TRY(holds(y, x));
        REQUIRE(!y.get_scope_id()); REQUIRE(!y.get_scope_id().has_string()); REQUIRE(!y.get_scope_id().has_uint32());
        return 0;
    }
    A6 x = addr<A6>(a); AA y(x);
    x.set_scope_id(s, c);
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try { y.set_scope_id(s); d = NOERR; } catch (const ipx::parse_error& e) { d = e.code(); }
    } else
#endif
    y.set_scope_id(s, d);
    REQUIRE(c == d);
    return holds(y, x);
}
ENTRY int any_scope_c(const u8* a, int v, const char* t, size_t n, int stale, int x) { return scope_(a, v, std::string(t, n), stale, x); }
ENTRY int any_scope_w(const u8* a, int v, const wchar_t* t, size_t n, int stale, int x) { return scope_(a, v, std::wstring(t, n), stale, x); }
ENTRY int any_scope_c16(const u8* a, int v, const char16_t* t, size_t n, int stale, int x) { return scope_(a, v, std::u16string(t, n), stale, x); }
ENTRY int any_scope_c32(const u8* a, int v, const char32_t* t, size_t n, int stale, int x) { return scope_(a, v, std::u32string(t, n), stale, x); }
#if __cpp_char8_t >= 201811L
ENTRY int any_scope_c8(const u8* a, int v, const char8_t* t, size_t n, int stale, int x) { return scope_(a, v, std::u8string(t, n), stale, x); }
#endif
// ---- networks
template <class A> static int nbasic(const u8* a, size_t p, int sc) {
    const auto x = net<A>(a, p, sc); const NA y(x);
    TRY(holds<A>(y, x));
    REQUIRE(y.prefixlen() == p);
    TRY(holds(y.network_address(), x.network_address())); TRY(holds(y.broadcast_address(), x.broadcast_address()));
    TRY(holds(y.netmask(), x.netmask())); TRY(holds(y.hostmask(), x.hostmask()));
    REQUIRE(y.size() == x.size());
    REQUIRE(y.addresses_count() == ipx::uint128_t(x.addresses_count()));
    const NA z(y); NA q; q = y;
    TRY(holds<A>(z, x)); TRY(holds<A>(q, x));
    return 0;
}
ENTRY int any_nbasic4(const u8* a, size_t p, int sc) { return nbasic<A4>(a, p, sc); }
ENTRY int any_nbasic6(const u8* a, size_t p, int sc) { return nbasic<A6>(a, p, sc); }
template <class A> static int nfrom(const u8* a, size_t p, int strict, int stale) {
    typedef typename traits<A>::net Net;
    ipx::error_code c = (ipx::error_code)stale, d = (ipx::error_code)stale;
    const Net x = Net::from_address(addr<A>(a), c, p, strict != 0);
    const NA y = NA::from_address(AA(addr<A>(a)), d, p, strict != 0);
    REQUIRE(c == d);
    TRY(holds<A>(y, x));
#ifndef IPADDRESS_NO_EXCEPTIONS
    try {
        const NA z = NA::from_address(AA(addr<A>(a)), p, strict != 0);
        REQUIRE(c == NOERR); return holds<A>(z, x);
    } catch (const ipx::error& e) { REQUIRE(c != NOERR); REQUIRE(e.code() == c); }
#endif
    return 0;
}
ENTRY int any_nfrom4(const u8* a, size_t p, int s, int c) { return nfrom<A4>(a, p, s, c); }
ENTRY int any_nfrom6(const u8* a, size_t p, int s, int c) { return nfrom<A6>(a, p, s, c); }
template <class A> static int nswap(const u8* a, size_t p, const u8* b, size_t q, int std_) {
    const auto x = net<A>(a, p); const auto y = net<A>(b, q);
    NA s(x), t(y);
#ifndef IPADDRESS_NO_OVERLOAD_STD
    if (std_) std::swap(s, t); else
#endif
    s.swap(t);
    TRY(holds<A>(s, y)); TRY(holds<A>(t, x));
    return 0;
}
ENTRY int any_nswap4(const u8* a, size_t p, const u8* b, size_t q, int h) { return nswap<A4>(a, p, b, q, h); }
ENTRY int any_nswap6(const u8* a, size_t p, const u8* b, size_t q, int h) { return nswap<A6>(a, p, b, q, h); }
ENTRY int any_nswapx(const u8* a, size_t p, const u8* b, size_t q, int std_) {
    const N4 x = net<A4>(a, p); const N6 y = net<A6>(b, q);
    NA s(x), t(y);
#ifndef IPADDRESS_NO_OVERLOAD_STD
    if (std_) std::swap(s, t); else
#endif
    s.swap(t);
    TRY(holds<A6>(s, y)); TRY(holds<A4>(t, x));
    return 0;
}
template <class A> static int nrel(const u8* a, size_t p, const u8* b, size_t q, int w) {
    const auto x = net<A>(a, p); const auto y = net<A>(b, q); const NA s(x), t(y);
    switch (w) {
    case 0: REQUIRE(s.contains(AA(addr<A>(b))) == x.contains(addr<A>(b))); break;
    case 1: REQUIRE(s.overlaps(t) == x.overlaps(y)); break;
    case 2: REQUIRE(s.subnet_of(t) == x.subnet_of(y)); break;
    default: REQUIRE(s.supernet_of(t) == x.supernet_of(y)); break;
    }
    return 0;
}
ENTRY int any_nrel4(const u8* a, size_t p, const u8* b, size_t q, int w) { return nrel<A4>(a, p, b, q, w); }
ENTRY int any_nrel6(const u8* a, size_t p, const u8* b, size_t q, int w) { return nrel<A6>(a, p, b, q, w); }
template <class A> static int nsuper(const u8* a, size_t p, size_t d, size_t q, int has, int thrown, int stale) {
    const auto x = net<A>(a, p); const NA y(x);
    ipx::error_code c = (ipx::error_code)stale, e = (ipx::error_code)stale;
    const auto r = has ? x.supernet(c, d, q) : x.supernet(c, d);
    NA s;
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try { s = has ? y.supernet(d, q) : y.supernet(d); e = NOERR; } catch (const ipx::logic_error& t) { REQUIRE(c != NOERR); REQUIRE(t.code() == c); return 0; }
    } else
#endif
    s = has ? y.supernet(e, d, q) : y.supernet(e, d);
    REQUIRE(c == e);
    return holds<A>(s, r);
}
ENTRY int any_nsuper4(const u8* a, size_t p, size_t d, size_t q, int h, int t, int s) { return nsuper<A4>(a, p, d, q, h, t, s); }
ENTRY int any_nsuper6(const u8* a, size_t p, size_t d, size_t q, int h, int t, int s) { return nsuper<A6>(a, p, d, q, h, t, s); }
// two sequences element by element from both ends, at most k elements
static int equal(const AA& y, const A4& x) { return holds(y, x); }
static int equal(const AA& y, const A6& x) { return holds(y, x); }
static int equal(const NA& y, const N4& x) { return holds<A4>(y, x); }
static int equal(const NA& y, const N6& x) { return holds<A6>(y, x); }
template <class S, class T> static int lockstep(const S& x, const T& y, int k, int part) {
    REQUIRE((x.begin() == x.end()) == (y.begin() == y.end()));
    REQUIRE(x.empty() == y.empty());
    if (part == 0) {
        auto i = x.begin(); auto j = y.begin();
        for (int n = 0; n < k && i != x.end(); ++n) { REQUIRE(j != y.end()); TRY(equal(*j, *i)); ++i; j++; }
        REQUIRE((i == x.end()) == (j == y.end()));
    } else if (part == 1) {
        auto i = x.end(); auto j = y.end();
        for (int n = 0; n < k && i != x.begin(); ++n) { REQUIRE(j != y.begin()); --i; --j; TRY(equal(*j, *i)); }
        REQUIRE((i == x.begin()) == (j == y.begin()));
    } else if (part == 2) {
        auto i = x.rbegin(); auto j = y.rbegin();
        for (int n = 0; n < k && i != x.rend(); ++n) { REQUIRE(j != y.rend()); TRY(equal(*j, *i)); ++i; ++j; }
        REQUIRE((i == x.rend()) == (j == y.rend()));
    } else if (!x.empty()) {
        TRY(equal(y.front(), x.front())); TRY(equal(y.back(), x.back()));
        REQUIRE(x.end().uint_diff(x.begin()) == y.end().uint_diff(y.begin()));
        auto i = x.begin() + (std::int64_t)1; auto j = y.begin() + (std::int64_t)1;
        REQUIRE((i == x.end()) == (j == y.end()));
        if (i != x.end()) { TRY(equal(*j, *i)); TRY(equal(y.begin()[(std::int64_t)1], x.begin()[(std::int64_t)1])); TRY(equal(y[1], x[1])); TRY(equal(y.at(1), x.at(1))); }
        i -= (std::int64_t)1; j -= (std::int64_t)1;
        REQUIRE(j == y.begin()); REQUIRE(j < y.end()); REQUIRE(j <= y.end()); REQUIRE(!(j > y.end())); REQUIRE(y.end() > j);
    }
    return 0;
}
template <class A> static int nhosts(const u8* a, size_t p, int k, int part) {
    const auto x = net<A>(a, p); const NA y(x);
    return lockstep(x.hosts(), y.hosts(), k, part);
}
ENTRY int any_hosts4(const u8* a, size_t p, int k, int part) { return nhosts<A4>(a, p, k, part); }
ENTRY int any_hosts6(const u8* a, size_t p, int k, int part) { return nhosts<A6>(a, p, k, part); }
template <class A> static int nsubs(const u8* a, size_t p, size_t d, size_t q, int has, int thrown, int stale, int k, int part) {
    const auto x = net<A>(a, p); const NA y(x);
    ipx::error_code c = (ipx::error_code)stale, e = (ipx::error_code)stale;
    const auto r = has ? x.subnets(c, d, q) : x.subnets(c, d);
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try {
            const auto s = has ? y.subnets(d, q) : y.subnets(d);
            REQUIRE(c == NOERR);
            return lockstep(r, s, k, part);
        } catch (const ipx::logic_error& t) { REQUIRE(c != NOERR); REQUIRE(t.code() == c); return 0; }
    }
#endif
    const auto s = has ? y.subnets(e, d, q) : y.subnets(e, d);
    REQUIRE(c == e);
    if (c != NOERR) { REQUIRE(s.empty()); return 0; }
    return lockstep(r, s, k, part);
}
ENTRY int any_subs4(const u8* a, size_t p, size_t d, size_t q, int h, int t, int s, int k, int part) { return nsubs<A4>(a, p, d, q, h, t, s, k, part); }
ENTRY int any_subs6(const u8* a, size_t p, size_t d, size_t q, int h, int t, int s, int k, int part) { return nsubs<A6>(a, p, d, q, h, t, s, k, part); }
template <class A> static int nexcl(const u8* a, size_t p, const u8* b, size_t q, int thrown, int stale) {
    const auto x = net<A>(a, p); const auto y = net<A>(b, q); const NA s(x), t(y);
    ipx::error_code c = (ipx::error_code)stale, e = (ipx::error_code)stale;
    const auto r = x.address_exclude(y, c);
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try {
            const auto z = s.address_exclude(t);
            REQUIRE(c == NOERR);
            auto i = r.begin(); auto j = z.begin();
            for (; i != r.end(); ++i, ++j) { REQUIRE(j != z.end()); TRY(equal(*j, *i)); }
            REQUIRE(j == z.end());
        } catch (const ipx::logic_error& u) { REQUIRE(c != NOERR); REQUIRE(u.code() == c); }
        return 0;
    }
#endif
    const auto z = s.address_exclude(t, e);
    REQUIRE(c == e);
    auto i = r.begin(); auto j = z.begin();
    for (; i != r.end(); ++i, ++j) { REQUIRE(j != z.end()); TRY(equal(*j, *i)); }
    REQUIRE(j == z.end());
    return 0;
}
ENTRY int any_excl4(const u8* a, size_t p, const u8* b, size_t q, int t, int s) { return nexcl<A4>(a, p, b, q, t, s); }
ENTRY int any_excl6(const u8* a, size_t p, const u8* b, size_t q, int t, int s) { return nexcl<A6>(a, p, b, q, t, s); }
// ---- parsing: IPv4 exactly when the text is IPv4, else what IPv6 says
#if __cplusplus >= 201703L
#define VIEW(C, t, n) std::basic_string_view<C>(t, n)
#else
#define VIEW(C, t, n) std::basic_string<C>(t, n)
#endif
template <class C> static int pick(const C* t, size_t n, int stale, int thrown) {
    ipx::error_code c = (ipx::error_code)stale, d = c, e = c;
    const A4 x = A4::parse(VIEW(C, t, n), c); const A6 y = A6::parse(VIEW(C, t, n), d);
    AA z;
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try { z = AA::parse(VIEW(C, t, n)); e = NOERR; } catch (const ipx::parse_error& u) { REQUIRE(c != NOERR); REQUIRE(d != NOERR); REQUIRE(u.code() == d); return 0; }
    } else
#endif
    z = AA::parse(VIEW(C, t, n), e);
    if (c == NOERR) { REQUIRE(e == NOERR); return holds(z, x); }
    REQUIRE(e == d);
    if (d == NOERR) return holds(z, y);
    return holds(z, A4());
}
template <class C> static int pickn(const C* t, size_t n, int strict, int stale, int thrown) {
    ipx::error_code c = (ipx::error_code)stale, d = c, e = c;
    const N4 x = N4::parse(VIEW(C, t, n), c, strict != 0); const N6 y = N6::parse(VIEW(C, t, n), d, strict != 0);
    NA z;
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (thrown) {
        try { z = NA::parse(VIEW(C, t, n), strict != 0); e = NOERR; } catch (const ipx::parse_error& u) { REQUIRE(c != NOERR); REQUIRE(d != NOERR); REQUIRE(u.code() == d); return 0; }
    } else
#endif
    z = NA::parse(VIEW(C, t, n), e, strict != 0);
    if (c == NOERR) { REQUIRE(e == NOERR); return holds<A4>(z, x); }
    REQUIRE(e == d);
    if (d == NOERR) return holds<A6>(z, y);
    return holds<A4>(z, N4());
}
#define PICK(X, C) \
ENTRY int any_pick_##X(const C* t, size_t n, int s, int x) { return pick<C>(t, n, s, x); } \
ENTRY int any_pickn_##X(const C* t, size_t n, int strict, int s, int x) { return pickn<C>(t, n, strict, s, x); }
PICK(c, char)
PICK(w, wchar_t)
PICK(c16, char16_t)
PICK(c32, char32_t)
#if __cpp_char8_t >= 201811L
PICK(c8, char8_t)
#endif
