#include "common.h"
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NN;

static void scope(A6& x, int c) {
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
    if (c) { ipx::error_code e = NOERR; const std::string s(1, (char)c); x.set_scope_id(s, e); }
#endif
}
// all queries at once; bit q of want is the answer
template <class T> static int every(const T& x, int want, bool site) {
    REQUIRE(x.is_multicast() == ((want >> 0 & 1) != 0));
    REQUIRE(x.is_private() == ((want >> 1 & 1) != 0));
    REQUIRE(x.is_global() == ((want >> 2 & 1) != 0));
    REQUIRE(x.is_reserved() == ((want >> 3 & 1) != 0));
    REQUIRE(x.is_loopback() == ((want >> 4 & 1) != 0));
    REQUIRE(x.is_link_local() == ((want >> 5 & 1) != 0));
    REQUIRE(x.is_unspecified() == ((want >> 6 & 1) != 0));
    return 0;
}
template <class T> static int everysite(const T& x, int want) {
    REQUIRE(x.is_site_local() == ((want >> 7 & 1) != 0));
    return every(x, want, true);
}
ENTRY int c19_every4(const u8* a, int want, int any, int) {
    const A4 x = addr<A4>(a);
    return any ? everysite(AA(x), want) : every(x, want, false);
}
ENTRY int c19_every6(const u8* a, int want, int any, int sc) {
    A6 x = addr<A6>(a);
    scope(x, sc);
    return any ? everysite(AA(x), want) : everysite(x, want);
}
ENTRY int c19_everyn4(const u8* a, size_t p, int want, int any) {
    ipx::error_code e = NOERR;
    const N4 x = N4::from_address(addr<A4>(a), e, p, false);
    return any ? everysite(NN(x), want) : every(x, want, false);
}
ENTRY int c19_everyn6(const u8* a, size_t p, int want, int any) {
    ipx::error_code e = NOERR;
    const N6 x = N6::from_address(addr<A6>(a), e, p, false);
    return any ? everysite(NN(x), want) : everysite(x, want);
}

// ---- C20
template <class T> static int embedded(const T& x, const u8* a, int q, int want) {
    if (q == 0) {
        const auto m = x.ipv4_mapped();
        REQUIRE(m.has_value() == (want != 0)); REQUIRE((bool)m == (want != 0));
        if (want) { REQUIRE(same(m.value(), a + 12)); REQUIRE(same(*m, a + 12)); }
    } else if (q == 1) {
        const auto m = x.sixtofour();
        REQUIRE(m.has_value() == (want != 0));
        if (want) REQUIRE(same(m.value(), a + 2));
    } else {
        const auto m = x.teredo();
        REQUIRE(m.has_value() == (want != 0));
        if (want) {
            u8 c[4];
            for (int i = 0; i < 4; ++i) c[i] = (u8)~a[12 + i];
            REQUIRE(same(m.value().first, a + 4)); REQUIRE(same(m.value().second, c));
        }
    }
    return 0;
}
ENTRY int c20_v6(const u8* a, int q, int want, int any, int sc) {
    A6 x = addr<A6>(a);
    scope(x, sc);
    return any ? embedded(AA(x), a, q, want) : embedded(x, a, q, want);
}
ENTRY int c20_v4(const u8* a) {
    const AA x(addr<A4>(a));
    REQUIRE(!x.ipv4_mapped().has_value()); REQUIRE(!x.sixtofour().has_value()); REQUIRE(!x.teredo().has_value());
    return 0;
}
