#include "common.h"
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6;

// ---- C14: creating a network from an address and a prefix length
template <class A> static int create(const u8* a, size_t plen, int strict, int stale) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename traits<A>::net Net;
    ipx::error_code code = (ipx::error_code)stale;
    const Net n = Net::from_address(addr<A>(a), code, plen, strict != 0);
    if (plen > BITS) { REQUIRE(code != NOERR); REQUIRE(n == Net()); return 0; }
    if (strict && hostbits(a, N, plen)) {
        REQUIRE(code == ipx::error_code::has_host_bits_set);
        REQUIRE(n == Net());
        REQUIRE(n.prefixlen() == BITS);
        return 0;
    }
    REQUIRE(code == NOERR);
    return netis<A>(n, a, plen);
}
ENTRY int c14_create4(const u8* a, size_t p, int s, int c) { return create<A4>(a, p, s, c); }
ENTRY int c14_create6(const u8* a, size_t p, int s, int c) { return create<A6>(a, p, s, c); }
#ifndef IPADDRESS_NO_EXCEPTIONS
template <class A> static int create_throw(const u8* a, size_t plen, int strict) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename traits<A>::net Net;
    bool bad = plen > BITS || (strict && hostbits(a, N, plen));
    try {
        const Net n = Net::from_address(addr<A>(a), plen, strict != 0);
        REQUIRE(!bad);
        return netis<A>(n, a, plen);
    } catch (const ipx::parse_error& e) {
        REQUIRE(bad);
        REQUIRE(plen > BITS || e.code() == ipx::error_code::has_host_bits_set);
    } catch (const ipx::logic_error&) {
        REQUIRE(plen > BITS);
    }
    return 0;
}
ENTRY int c14_createx4(const u8* a, size_t p, int s) { return create_throw<A4>(a, p, s); }
ENTRY int c14_createx6(const u8* a, size_t p, int s) { return create_throw<A6>(a, p, s); }
#endif
// default network
template <class A> static int defnet() {
    typedef typename traits<A>::net Net;
    const u8 z[16] = {};
    return netis<A>(Net(), z, traits<A>::BITS);
}
ENTRY int c14_default4() { return defnet<A4>(); }
ENTRY int c14_default6() { return defnet<A6>(); }
template <class A> static int count4(const u8* a, size_t plen) {
    typedef typename traits<A>::net Net;
    enum { BITS = traits<A>::BITS };
    ipx::error_code code = NOERR;
    const Net n = Net::from_address(addr<A>(a), code, plen, false);
    const auto c = n.addresses_count();
    // 2^(BITS-plen) modulo the width of the integer
    for (size_t i = 0; i < BITS; ++i) {
        bool bit = (u64)((c >> i) & 1U) != 0;
        REQUIRE(bit == (i == BITS - plen));
    }
    return 0;
}
ENTRY int c14_count4(const u8* a, size_t p) { return count4<A4>(a, p); }
ENTRY int c14_count6(const u8* a, size_t p) { return count4<A6>(a, p); }

// ---- C15: containment and overlap
template <class A> static int contain(const u8* nb, size_t plen, const u8* ab) {
    enum { N = traits<A>::N };
    typedef typename traits<A>::net Net;
    ipx::error_code code = NOERR;
    const Net n = Net::from_address(addr<A>(nb), code, plen, false);
    const bool got = n.contains(addr<A>(ab));
    REQUIRE(got == inprefix(ab, nb, N, plen));
    return 0;
}
ENTRY int c15_contains4(const u8* n, size_t p, const u8* a) { return contain<A4>(n, p, a); }
ENTRY int c15_contains6(const u8* n, size_t p, const u8* a) { return contain<A6>(n, p, a); }
template <class A> static int relate(const u8* xb, size_t xp, const u8* yb, size_t yp, int which) {
    enum { N = traits<A>::N };
    typedef typename traits<A>::net Net;
    ipx::error_code code = NOERR;
    const Net x = Net::from_address(addr<A>(xb), code, xp, false);
    const Net y = Net::from_address(addr<A>(yb), code, yp, false);
    const bool meet = inprefix(xb, yb, N, xp < yp ? xp : yp);
    switch (which) {
    case 0: REQUIRE(x.overlaps(y) == meet); break;
    case 1: REQUIRE(x.subnet_of(y) == (meet && xp >= yp)); break;
    case 2: REQUIRE(x.supernet_of(y) == (meet && xp <= yp)); break;
    default: REQUIRE((x == y) == (meet && xp == yp)); REQUIRE((x != y) == !(meet && xp == yp)); break;
    }
    return 0;
}
ENTRY int c15_relate4(const u8* n, size_t p, const u8* a, size_t q, int w) { return relate<A4>(n, p, a, q, w); }
ENTRY int c15_relate6(const u8* n, size_t p, const u8* a, size_t q, int w) { return relate<A6>(n, p, a, q, w); }
ENTRY int c15_mixed(const u8* n4, size_t p4, const u8* n6, size_t p6) {
    ipx::error_code code = NOERR;
    const ipx::ip_network x(ipx::ipv4_network::from_address(addr<A4>(n4), code, p4, false));
    const ipx::ip_network y(ipx::ipv6_network::from_address(addr<A6>(n6), code, p6, false));
    REQUIRE(!x.contains(ipx::ip_address(addr<A6>(n6))));
    REQUIRE(!y.contains(ipx::ip_address(addr<A4>(n4))));
    REQUIRE(!x.overlaps(y)); REQUIRE(!y.overlaps(x));
    REQUIRE(!x.subnet_of(y)); REQUIRE(!y.subnet_of(x));
    REQUIRE(!x.supernet_of(y)); REQUIRE(!y.supernet_of(x));
    REQUIRE(x != y); REQUIRE(!(x == y));
    return 0;
}
template <class A> static int anyrelate(const u8* xb, size_t xp, const u8* yb, size_t yp, int which) {
    enum { N = traits<A>::N };
    typedef typename traits<A>::net Net;
    ipx::error_code code = NOERR;
    const ipx::ip_network x(Net::from_address(addr<A>(xb), code, xp, false));
    const ipx::ip_network y(Net::from_address(addr<A>(yb), code, yp, false));
    const bool meet = inprefix(xb, yb, N, xp < yp ? xp : yp);
    switch (which) {
    case 0: REQUIRE(x.overlaps(y) == meet); break;
    case 1: REQUIRE(x.subnet_of(y) == (meet && xp >= yp)); break;
    case 2: REQUIRE(x.supernet_of(y) == (meet && xp <= yp)); break;
    default: REQUIRE(x.contains(ipx::ip_address(addr<A>(yb))) == inprefix(xb, yb, N, xp)); break;
    }
    return 0;
}
ENTRY int c15_any4(const u8* n, size_t p, const u8* a, size_t q, int w) { return anyrelate<A4>(n, p, a, q, w); }
ENTRY int c15_any6(const u8* n, size_t p, const u8* a, size_t q, int w) { return anyrelate<A6>(n, p, a, q, w); }
