#include "common.h"
#include <utility>
#include <functional>
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA; typedef ipx::uint128_t U;

static u64 lo64(const U& v) { return (u64)v; }
static u64 hi64(const U& v) { return (u64)(v >> 64); }
static u64 be(const u8* p, size_t n) { u64 r = 0; for (size_t i = 0; i < n; ++i) r = (r << 8) | p[i]; return r; }

// ---- C11
ENTRY int c11_v4(const u8* a, int which) {
    const A4 x = addr<A4>(a);
    const u32 want = (u32)be(a, 4);
    switch (which) {
    case 0: REQUIRE(same(x, a)); REQUIRE(eqb(x.data(), a, 4)); REQUIRE(x.size() == 4); REQUIRE(x.version() == ipx::ip_version::V4); break;
    case 1: REQUIRE(x.to_uint() == want); break;
    case 2: REQUIRE((u32)x == want); break;
    case 3: REQUIRE(same(A4::from_uint(want), a)); break;
    case 4: REQUIRE(A4::from_uint(x.to_uint()) == x); break;
    case 5: REQUIRE(same(A4::from_bytes(x.bytes()), a)); REQUIRE(same(A4(x.bytes()), a)); break;
    case 6: REQUIRE(AA(x).to_uint32() == want); REQUIRE(hi64(AA(x).to_uint128()) == 0 && lo64(AA(x).to_uint128()) == want); break;
    case 7: { const AA y = AA::from_uint(want); REQUIRE(y.is_v4()); REQUIRE(same(y.v4().value(), a)); REQUIRE(eqb(y.data(), a, 4)); REQUIRE(y.size() == 4); } break;
    case 8: { const AA y = AA::from_bytes(x.bytes()); REQUIRE(y.is_v4()); REQUIRE(same(y.v4().value(), a)); } break;
    default: break;
    }
    return 0;
}
ENTRY int c11_v6(const u8* a, int which) {
    const A6 x = addr<A6>(a);
    const u64 H = be(a, 8), L = be(a + 8, 8);
    switch (which) {
    case 0: REQUIRE(same(x, a)); REQUIRE(eqb(x.data(), a, 16)); REQUIRE(x.size() == 16); REQUIRE(x.version() == ipx::ip_version::V6); break;
    case 1: REQUIRE(hi64(x.to_uint()) == H); REQUIRE(lo64(x.to_uint()) == L); break;
    case 2: { const U u = (U)x; REQUIRE(hi64(u) == H && lo64(u) == L); } break;
    case 3: REQUIRE(same(A6::from_uint(U(H, L)), a)); break;
    case 4: REQUIRE(A6::from_uint(x.to_uint()) == x); break;
    case 5: REQUIRE(same(A6::from_bytes(x.bytes()), a)); REQUIRE(same(A6(x.bytes()), a)); break;
    case 6: REQUIRE(AA(x).to_uint32() == (u32)L); REQUIRE(hi64(AA(x).to_uint128()) == H && lo64(AA(x).to_uint128()) == L); break;
    case 7: { const AA y = AA::from_uint(U(H, L)); REQUIRE(y.is_v6()); REQUIRE(same(y.v6().value(), a)); REQUIRE(eqb(y.data(), a, 16)); REQUIRE(y.size() == 16); } break;
    case 8: { const AA y = AA::from_bytes(x.bytes()); REQUIRE(y.is_v6()); REQUIRE(same(y.v6().value(), a)); } break;
    default: break;
    }
    return 0;
}
template <class A> static int raw(const u8* p, size_t n) {
    enum { N = traits<A>::N };
    u8 want[N] = {};
    for (size_t i = 0; i < N && i < n; ++i) want[i] = p[i];
    REQUIRE(same(A::from_bytes(p, n), want));
    const AA y = AA::from_bytes(p, n, N == 4 ? ipx::ip_version::V4 : ipx::ip_version::V6);
    REQUIRE(y.is_v4() == (N == 4)); REQUIRE(y.is_v6() == (N == 16));
    REQUIRE(eqb(y.data(), want, N));
    return 0;
}
ENTRY int c11_raw4(const u8* p, size_t n) { return raw<A4>(p, n); }
ENTRY int c11_raw6(const u8* p, size_t n) { return raw<A6>(p, n); }

// ---- C13 hashes
ENTRY u64 c13_h4(const u8* a, int which) {
    const A4 x = addr<A4>(a);
    return which == 0 ? x.hash() : which == 1 ? AA(x).hash() : which == 2 ? std::hash<A4>{}(x) : std::hash<AA>{}(AA(x));
}
ENTRY u64 c13_h6(const u8* a, int which) {
    const A6 x = addr<A6>(a);
    return which == 0 ? x.hash() : which == 1 ? AA(x).hash() : which == 2 ? std::hash<A6>{}(x) : std::hash<AA>{}(AA(x));
}
ENTRY u64 c13_hu(u64 h, u64 l) { return std::hash<U>{}(U(h, l)); }
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
ENTRY u64 c13_hs(const u8* a, const char* s, size_t n, int which) {
    A6 x = addr<A6>(a);
    ipx::error_code e = NOERR;
    const std::string ss(s, n);
    x.set_scope_id(ss, e);
    return which == 0 ? x.hash() : AA(x).hash();
}
// equal objects hash equally whatever their history
ENTRY int c13_history(const u8* a, const char* s, size_t n, const char* t, size_t m, int which) {
    A6 x = addr<A6>(a), y = addr<A6>(a);
    ipx::error_code e = NOERR, e1 = NOERR, e2 = NOERR;
    const std::string ss(s, n), tt(t, m);
    x.set_scope_id(ss, e);
    x.set_scope_id(tt, e1);
    y.set_scope_id(tt, e2);
    if (e != NOERR || e1 != NOERR || e2 != NOERR) return 0;
    if (which == 0) { REQUIRE(x == y); REQUIRE(!(x < y)); REQUIRE(!(y < x)); }
    if (which == 1) REQUIRE(x.hash() == y.hash());
    if (which == 2) REQUIRE(AA(x).hash() == AA(y).hash());
    if (which == 3) REQUIRE(AA(x) == AA(y));
    return 0;
}
#endif
template <class A, class T> static u64 hnet(const u8* a, size_t p) {
    ipx::error_code e = NOERR;
    return T(traits<A>::net::from_address(addr<A>(a), e, p, false)).hash();
}
ENTRY u64 c13_hn4(const u8* a, size_t p, int w) { return w ? hnet<A4, ipx::ip_network>(a, p) : hnet<A4, ipx::ipv4_network>(a, p); }
ENTRY u64 c13_hn6(const u8* a, size_t p, int w) { return w ? hnet<A6, ipx::ip_network>(a, p) : hnet<A6, ipx::ipv6_network>(a, p); }
template <class A, class T> static int hplen(const u8* a) {
    // same network address, different prefix: the hash must tell some of them apart
    enum { BITS = traits<A>::BITS };
    const u64 h = hnet<A, T>(a, BITS);
    for (size_t p = BITS - 8; p < BITS; ++p) if (hnet<A, T>(a, p) != h) return 0;
    return __LINE__;
}
ENTRY int c13_hp4(const u8* a, int w) { return w ? hplen<A4, ipx::ip_network>(a) : hplen<A4, ipx::ipv4_network>(a); }
ENTRY int c13_hp6(const u8* a, int w) { return w ? hplen<A6, ipx::ip_network>(a) : hplen<A6, ipx::ipv6_network>(a); }
// equal networks made differently hash equally
template <class A, class T> static int hneq(const u8* a, size_t p) {
    enum { N = traits<A>::N };
    ipx::error_code e = NOERR;
    u8 f[N];
    first(a, N, p, f);
    const T x(traits<A>::net::from_address(addr<A>(a), e, p, false)), y(traits<A>::net::from_address(addr<A>(f), e, p, true));
    REQUIRE(e == NOERR); REQUIRE(x == y); REQUIRE(x.hash() == y.hash()); REQUIRE(std::hash<T>{}(x) == x.hash());
    return 0;
}
ENTRY int c13_hneq4(const u8* a, size_t p, int w) { return w ? hneq<A4, ipx::ip_network>(a, p) : hneq<A4, ipx::ipv4_network>(a, p); }
ENTRY int c13_hneq6(const u8* a, size_t p, int w) { return w ? hneq<A6, ipx::ip_network>(a, p) : hneq<A6, ipx::ipv6_network>(a, p); }

// ---- C13 copies and swaps: the complete observable value
static int is4(const AA& x, const u8* a) {
    REQUIRE(x.version() == ipx::ip_version::V4); REQUIRE(x.is_v4()); REQUIRE(!x.is_v6()); REQUIRE(eqb(x.data(), a, 4)); REQUIRE(x.size() == 4);
    REQUIRE(x.v4().has_value()); REQUIRE(!x.v6().has_value());
    REQUIRE(!x.get_scope_id());
    return 0;
}
static int scopeis(const ipx::scope& sc, const char* s, size_t n) {
    if (n == 0) { REQUIRE(!sc); return 0; }
    REQUIRE((bool)sc);
    const std::string t = sc.get_string();
    REQUIRE(t.size() == n);
    for (size_t i = 0; i < n; ++i) REQUIRE(t[i] == s[i]);
    return 0;
}
static int is6(const A6& x, const u8* a, const char* s, size_t n) {
    REQUIRE(same(x, a));
    return scopeis(x.get_scope_id(), s, n);
}
static int is6(const AA& x, const u8* a, const char* s, size_t n) {
    REQUIRE(x.version() == ipx::ip_version::V6); REQUIRE(x.is_v6()); REQUIRE(!x.is_v4()); REQUIRE(eqb(x.data(), a, 16)); REQUIRE(x.size() == 16);
    REQUIRE(x.v6().has_value()); REQUIRE(!x.v4().has_value());
    int r = scopeis(x.get_scope_id(), s, n);
    return r ? r : is6(x.v6().value(), a, s, n);
}
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
static bool scoped(A6& x, const char* s, size_t n) {
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
    if (n) { ipx::error_code e = NOERR; const std::string ss(s, n); x.set_scope_id(ss, e); return e == NOERR; }
#endif
    return n == 0;
}
template <class T> static void exchange(T& x, T& y, int how) {
    using std::swap;
    switch (how) {
    case 0: x.swap(y); break;
    case 1: swap(x, y); break;
    case 2: std::swap(x, y); break;
    case 3: { T t(x); x = y; y = t; } break;
    case 4: { T t(std::move(x)); x = std::move(y); y = std::move(t); } break;
    default: break;
    }
}
ENTRY int c13_swap4(const u8* a, const u8* b, int how) {
    A4 x = addr<A4>(a), y = addr<A4>(b);
    exchange(x, y, how);
    REQUIRE(same(x, b)); REQUIRE(same(y, a));
    return 0;
}
ENTRY int c13_swap6(const u8* a, const char* s, size_t n, const u8* b, const char* t, size_t m, int how) {
    A6 x = addr<A6>(a), y = addr<A6>(b);
    if (!scoped(x, s, n) || !scoped(y, t, m)) return 0;
    exchange(x, y, how);
    TRY(is6(x, b, t, m)); TRY(is6(y, a, s, n));
    return 0;
}
ENTRY int c13_swapany(int va, const u8* a, const char* s, size_t n, int vb, const u8* b, const char* t, size_t m, int how) {
    A6 p = va == 6 ? addr<A6>(a) : A6(), q = vb == 6 ? addr<A6>(b) : A6();
    if (va == 6 && !scoped(p, s, n)) return 0;
    if (vb == 6 && !scoped(q, t, m)) return 0;
    AA x = va == 6 ? AA(p) : AA(addr<A4>(a)), y = vb == 6 ? AA(q) : AA(addr<A4>(b));
    exchange(x, y, how);
    if (vb == 6) TRY(is6(x, b, t, m)); else TRY(is4(x, b));
    if (va == 6) TRY(is6(y, a, s, n)); else TRY(is4(y, a));
    return 0;
}
// copy construction, assignment over an existing value, self assignment and self swap
ENTRY int c13_copyany(int va, const u8* a, const char* s, size_t n, int vb, const u8* b, const char* t, size_t m, int how) {
    A6 p = va == 6 ? addr<A6>(a) : A6(), q = vb == 6 ? addr<A6>(b) : A6();
    if (va == 6 && !scoped(p, s, n)) return 0;
    if (vb == 6 && !scoped(q, t, m)) return 0;
    AA x = va == 6 ? AA(p) : AA(addr<A4>(a)), y = vb == 6 ? AA(q) : AA(addr<A4>(b));
    switch (how) {
    case 0: x = y; break;
    case 1: { const AA c(y); x = c; } break;
    case 2: { AA& r = y; y = r; x = y; } break;
    case 3: y.swap(y); x = y; break;
    case 4: if (vb == 6) x = q; else x = addr<A4>(b); break;
    default: return 0;
    }
    if (vb == 6) { TRY(is6(x, b, t, m)); TRY(is6(y, b, t, m)); } else { TRY(is4(x, b)); TRY(is4(y, b)); }
    REQUIRE(x == y);
    return 0;
}
template <class A> static int swapnet(const u8* a, size_t p, const u8* b, size_t q, int how) {
    typedef typename traits<A>::net Net;
    ipx::error_code e = NOERR;
    Net x = Net::from_address(addr<A>(a), e, p, false), y = Net::from_address(addr<A>(b), e, q, false);
    exchange(x, y, how);
    TRY(netis<A>(x, b, q)); TRY(netis<A>(y, a, p));
    return 0;
}
ENTRY int c13_swapnet4(const u8* a, size_t p, const u8* b, size_t q, int how) { return swapnet<A4>(a, p, b, q, how); }
ENTRY int c13_swapnet6(const u8* a, size_t p, const u8* b, size_t q, int how) { return swapnet<A6>(a, p, b, q, how); }
ENTRY int c13_swapanynet(int va, const u8* a, size_t p, int vb, const u8* b, size_t q, int how) {
    ipx::error_code e = NOERR;
    ipx::ip_network x = va == 4 ? ipx::ip_network(ipx::ipv4_network::from_address(addr<A4>(a), e, p, false)) : ipx::ip_network(ipx::ipv6_network::from_address(addr<A6>(a), e, p, false));
    ipx::ip_network y = vb == 4 ? ipx::ip_network(ipx::ipv4_network::from_address(addr<A4>(b), e, q, false)) : ipx::ip_network(ipx::ipv6_network::from_address(addr<A6>(b), e, q, false));
    exchange(x, y, how);
    REQUIRE(x.version() == (vb == 4 ? ipx::ip_version::V4 : ipx::ip_version::V6));
    REQUIRE(y.version() == (va == 4 ? ipx::ip_version::V4 : ipx::ip_version::V6));
    if (vb == 4) TRY(netis<A4>(x.v4().value(), b, q)); else TRY(netis<A6>(x.v6().value(), b, q));
    if (va == 4) TRY(netis<A4>(y.v4().value(), a, p)); else TRY(netis<A6>(y.v6().value(), a, p));
    return 0;
}
