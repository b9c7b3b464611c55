#include "common.h"
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6;

// all six operators (and, where the build has it, the three-way one) against
// the sign of the mathematical comparison
template <class T> static int six(const T& x, const T& y, int c) {
    REQUIRE((x == y) == (c == 0));
    REQUIRE((x != y) == (c != 0));
    REQUIRE((x < y) == (c < 0));
    REQUIRE((x > y) == (c > 0));
    REQUIRE((x <= y) == (c <= 0));
    REQUIRE((x >= y) == (c >= 0));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    const auto w = x <=> y;
    REQUIRE((w < 0) == (c < 0));
    REQUIRE((w > 0) == (c > 0));
    REQUIRE((w == 0) == (c == 0));
#endif
    return 0;
}
template <class T> static int one(const T& x, const T& y, int c, int which) {
    switch (which) {
    case 0: REQUIRE((x == y) == (c == 0)); break;
    case 1: REQUIRE((x != y) == (c != 0)); break;
    case 2: REQUIRE((x < y) == (c < 0)); break;
    case 3: REQUIRE((x > y) == (c > 0)); break;
    case 4: REQUIRE((x <= y) == (c <= 0)); break;
    case 5: REQUIRE((x >= y) == (c >= 0)); break;
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    case 6: { const auto w = x <=> y; REQUIRE((w < 0) == (c < 0)); REQUIRE((w > 0) == (c > 0)); REQUIRE((w == 0) == (c == 0)); } break;
#endif
    default: break;
    }
    return 0;
}
ENTRY int c12_v4(const u8* a, const u8* b, int w) { return one(addr<A4>(a), addr<A4>(b), cmp(a, b, 4), w); }
ENTRY int c12_v6(const u8* a, const u8* b, int w) { return one(addr<A6>(a), addr<A6>(b), cmp(a, b, 16), w); }
ENTRY int c12_any4(const u8* a, const u8* b, int w) { return one(ipx::ip_address(addr<A4>(a)), ipx::ip_address(addr<A4>(b)), cmp(a, b, 4), w); }
ENTRY int c12_any6(const u8* a, const u8* b, int w) { return one(ipx::ip_address(addr<A6>(a)), ipx::ip_address(addr<A6>(b)), cmp(a, b, 16), w); }
// different versions: every IPv4 address is below every IPv6 address
ENTRY int c12_mixed(const u8* a, const u8* b) {
    const ipx::ip_address x(addr<A4>(a)), y(addr<A6>(b));
    int r = six(x, y, -1);
    return r ? r : six(y, x, 1);
}
// scope: v6 addresses with the same bytes order by the scope text
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
static int cmptext(const char* a, size_t n, const char* b, size_t m) {
    for (size_t i = 0; i < n && i < m; ++i) {
        if ((u8)a[i] < (u8)b[i]) return -1;
        if ((u8)a[i] > (u8)b[i]) return 1;
    }
    return n < m ? -1 : n > m ? 1 : 0;
}
template <class T> static int scoped(const u8* a, const u8* b, const char* s, size_t n, const char* t, size_t m, int w) {
    A6 x = addr<A6>(a), y = addr<A6>(b);
    ipx::error_code e1 = NOERR, e2 = NOERR;
    const std::string ss(s, n), tt(t, m);
    x.set_scope_id(ss, e1);
    y.set_scope_id(tt, e2);
    if (e1 != NOERR || e2 != NOERR) return 0; // not a scope (C22)
    int c = cmp(a, b, 16);
    if (c == 0) c = cmptext(s, n, t, m);
    return one(T(x), T(y), c, w);
}
ENTRY int c12_scoped(const u8* a, const u8* b, const char* s, size_t n, const char* t, size_t m, int w) { return scoped<A6>(a, b, s, n, t, m, w); }
ENTRY int c12_anyscoped(const u8* a, const u8* b, const char* s, size_t n, const char* t, size_t m, int w) { return scoped<ipx::ip_address>(a, b, s, n, t, m, w); }
#endif
// networks: by network address, then by mask
template <class A, class T> static int nets(const u8* a, size_t p, const u8* b, size_t q, int w) {
    enum { N = traits<A>::N };
    typedef typename traits<A>::net Net;
    ipx::error_code e = NOERR;
    const Net x = Net::from_address(addr<A>(a), e, p, false), y = Net::from_address(addr<A>(b), e, q, false);
    int c = cmp(a, b, N);
    if (c == 0) c = p < q ? -1 : p > q ? 1 : 0;
    return one(T(x), T(y), c, w);
}
ENTRY int c12_net4(const u8* a, size_t p, const u8* b, size_t q, int w) { return nets<A4, ipx::ipv4_network>(a, p, b, q, w); }
ENTRY int c12_net6(const u8* a, size_t p, const u8* b, size_t q, int w) { return nets<A6, ipx::ipv6_network>(a, p, b, q, w); }
ENTRY int c12_anynet4(const u8* a, size_t p, const u8* b, size_t q, int w) { return nets<A4, ipx::ip_network>(a, p, b, q, w); }
ENTRY int c12_anynet6(const u8* a, size_t p, const u8* b, size_t q, int w) { return nets<A6, ipx::ip_network>(a, p, b, q, w); }
ENTRY int c12_mixednet(const u8* a, size_t p, const u8* b, size_t q) {
    ipx::error_code e = NOERR;
    const ipx::ip_network x(ipx::ipv4_network::from_address(addr<A4>(a), e, p, false)), y(ipx::ipv6_network::from_address(addr<A6>(b), e, q, false));
    int r = six(x, y, -1);
    return r ? r : six(y, x, 1);
}
