#include "common.h"
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
static inline u32 uint_of(const A4*, const u8* i) { return (u32)i[12] << 24 | (u32)i[13] << 16 | (u32)i[14] << 8 | i[15]; }
static inline ipx::uint128_t uint_of(const A6*, const u8* i) {
    u64 h = 0, l = 0;
    for (int k = 0; k < 8; ++k) { h = h << 8 | i[k]; l = l << 8 | i[8 + k]; }
    return ipx::uint128_t(h, l);
}
template <class A> static typename traits<A>::net mk(const u8* a, size_t plen) {
    ipx::error_code code = NOERR;
    return traits<A>::net::from_address(addr<A>(a), code, plen, false);
}
// a + k * 2^sh, big-endian
static inline void plus(const u8* a, size_t n, size_t k, size_t sh, u8* o) {
    unsigned c = 0;
    const size_t low = sh / 8, s = sh % 8;
    const size_t add = k << s;      // k < 2^16
    for (size_t i = 0; i < n; ++i) {
        const size_t at = n - 1 - i;
        c += a[at];
        if (i >= low && i < low + 3) c += (add >> (8 * (i - low))) & 0xFF;
        o[at] = (u8)c; c >>= 8;
    }
}
// big-endian 2^d as the unsigned type (0 when it does not fit)
template <class U> static bool ispow(const U& c, size_t bits, size_t d) {
    for (size_t i = 0; i < bits; ++i) if (((u64)((c >> i) & 1U) != 0) != (i == d)) return false;
    return true;
}

// ---- C16 supernet
template <class A> static int super_(const u8* a, size_t plen, size_t diff, size_t newp, int has, int stale) {
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(a, plen);
    ipx::error_code code = (ipx::error_code)stale;
    const Net r = has ? n.supernet(code, diff, newp) : n.supernet(code, diff);
    if (plen == 0) { REQUIRE(code == NOERR); return netis<A>(r, a, 0); }
    const bool shorter = has && newp > plen, both = has && diff != 1;
    if (shorter || both) {
        REQUIRE((shorter && code == ipx::error_code::new_prefix_must_be_shorter) || (both && code == ipx::error_code::cannot_set_prefixlen_diff_and_new_prefix));
        REQUIRE(r == Net());
        return 0;
    }
    const size_t d = has ? plen - newp : diff;
    if (d > plen) { REQUIRE(code == ipx::error_code::invalid_prefixlen_diff); REQUIRE(r == Net()); return 0; }
    REQUIRE(code == NOERR);
    return netis<A>(r, a, plen - d);
}
ENTRY int c16_super4(const u8* a, size_t p, size_t d, size_t q, int h, int s) { return super_<A4>(a, p, d, q, h, s); }
ENTRY int c16_super6(const u8* a, size_t p, size_t d, size_t q, int h, int s) { return super_<A6>(a, p, d, q, h, s); }
#ifndef IPADDRESS_NO_EXCEPTIONS
template <class A> static int superx(const u8* a, size_t plen, size_t diff, size_t newp, int has) {
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(a, plen);
    const bool bad = plen != 0 && (has ? (newp > plen || diff != 1) : diff > plen);
    try {
        const Net r = has ? n.supernet(diff, newp) : n.supernet(diff);
        REQUIRE(!bad);
        return netis<A>(r, a, plen == 0 ? 0 : has ? newp : plen - diff);
    } catch (const ipx::logic_error& e) {
        REQUIRE(bad);
        REQUIRE(has ? ((newp > plen && e.code() == ipx::error_code::new_prefix_must_be_shorter) || (diff != 1 && e.code() == ipx::error_code::cannot_set_prefixlen_diff_and_new_prefix))
                    : e.code() == ipx::error_code::invalid_prefixlen_diff);
    }
    return 0;
}
ENTRY int c16_superx4(const u8* a, size_t p, size_t d, size_t q, int h) { return superx<A4>(a, p, d, q, h); }
ENTRY int c16_superx6(const u8* a, size_t p, size_t d, size_t q, int h) { return superx<A6>(a, p, d, q, h); }
#endif
// ---- C16 subnets: rejected requests
template <class A> static int suberr(const u8* a, size_t plen, size_t diff, size_t newp, int has, int stale) {
    typedef typename traits<A>::net Net;
    enum { BITS = traits<A>::BITS };
    const Net n = mk<A>(a, plen);
    ipx::error_code code = (ipx::error_code)stale;
    const auto r = has ? n.subnets(code, diff, newp) : n.subnets(code, diff);
    const bool longer = has && newp < plen, both = has && diff != 1;
    if (longer || both) {
        REQUIRE((longer && code == ipx::error_code::new_prefix_must_be_longer) || (both && code == ipx::error_code::cannot_set_prefixlen_diff_and_new_prefix));
    } else {
        REQUIRE(code == ipx::error_code::invalid_prefixlen_diff);
    }
    REQUIRE(r.empty());
    REQUIRE(r.size() == 0);
    REQUIRE(r.begin() == r.end());
    return 0;
}
ENTRY int c16_suberr4(const u8* a, size_t p, size_t d, size_t q, int h, int s) { return suberr<A4>(a, p, d, q, h, s); }
ENTRY int c16_suberr6(const u8* a, size_t p, size_t d, size_t q, int h, int s) { return suberr<A6>(a, p, d, q, h, s); }
#ifndef IPADDRESS_NO_EXCEPTIONS
template <class A> static int suberrx(const u8* a, size_t plen, size_t diff, size_t newp, int has) {
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(a, plen);
    try {
        const auto r = has ? n.subnets(diff, newp) : n.subnets(diff);
        (void) r;
        return __LINE__;
    } catch (const ipx::logic_error& e) {
        const bool longer = has && newp < plen, both = has && diff != 1;
        REQUIRE(longer || both ? (longer && e.code() == ipx::error_code::new_prefix_must_be_longer) || (both && e.code() == ipx::error_code::cannot_set_prefixlen_diff_and_new_prefix)
                               : e.code() == ipx::error_code::invalid_prefixlen_diff);
    }
    return 0;
}
ENTRY int c16_suberrx4(const u8* a, size_t p, size_t d, size_t q, int h) { return suberrx<A4>(a, p, d, q, h); }
ENTRY int c16_suberrx6(const u8* a, size_t p, size_t d, size_t q, int h) { return suberrx<A6>(a, p, d, q, h); }
#endif
template <class A> static ipx::subnets_sequence<typename traits<A>::net> subs(const u8* a, size_t plen, size_t diff, int how, ipx::error_code& code) {
    const auto n = mk<A>(a, plen);
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (how == 2) { code = NOERR; return n.subnets(diff); }
    if (how == 3) { code = NOERR; return n.subnets(1, plen + diff); }
#endif
    return how & 1 ? n.subnets(code, 1, plen + diff) : n.subnets(code, diff);
}
// every element of a small partition, in order, and nothing else
template <class A> static int suball(const u8* a, size_t plen, size_t diff, int how, int stale) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    ipx::error_code code = (ipx::error_code)stale;
    const auto s = subs<A>(a, plen, diff, how, code);
    REQUIRE(code == NOERR);
    const size_t count = plen == BITS ? 1 : (size_t)1 << diff, np = plen == BITS ? plen : plen + diff;
    REQUIRE(s.size() == count);
    REQUIRE(!s.empty());
    u8 base[N], e[N];
    first(a, N, plen, base);
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++k) {
        REQUIRE(k < count);
        plus(base, N, k, BITS - np, e);
        TRY(netis<A>(*it, e, np));
    }
    REQUIRE(k == count);
    return 0;
}
ENTRY int c16_suball4(const u8* a, size_t p, size_t d, int h, int s) { return suball<A4>(a, p, d, h, s); }
ENTRY int c16_suball6(const u8* a, size_t p, size_t d, int h, int s) { return suball<A6>(a, p, d, h, s); }
// element number idx of any partition (idx: 16 bytes big-endian; e: the address it must have)
template <class A> static int subat(const u8* a, size_t plen, size_t diff, const u8* idx, const u8* e, int how) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    ipx::error_code code = NOERR;
    const auto s = subs<A>(a, plen, diff, 0, code);
    REQUIRE(code == NOERR);
    const auto i = uint_of((const A*)0, idx);
    if (how == 0) { TRY(netis<A>(s[i], e, plen + diff)); }
    else if (how == 1) { TRY(netis<A>(*(s.begin() + i), e, plen + diff)); }
    else if (how == 2) { TRY(netis<A>(s.begin()[i], e, plen + diff)); }
    else { auto it = s.begin(); it += i; TRY(netis<A>(*it, e, plen + diff)); it -= i; TRY(netis<A>(*it, a, plen + diff)); if (N == 4) REQUIRE(it == s.begin()); }
    return 0;
}
ENTRY int c16_subat4(const u8* a, size_t p, size_t d, const u8* i, const u8* e, int h) { return subat<A4>(a, p, d, i, e, h); }
ENTRY int c16_subat6(const u8* a, size_t p, size_t d, const u8* i, const u8* e, int h) { return subat<A6>(a, p, d, i, e, h); }
// size, ends
template <class A> static int subends(const u8* a, size_t plen, size_t diff) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    ipx::error_code code = NOERR;
    const auto s = subs<A>(a, plen, diff, 0, code);
    REQUIRE(code == NOERR);
    REQUIRE(ispow(s.size(), BITS, plen == BITS ? 0 : diff));
    REQUIRE(!s.empty());
    u8 f[N], l[N], e[N];
    const size_t np = plen == BITS ? plen : plen + diff;
    first(a, N, plen, f);
    last(a, N, plen, l);
    first(l, N, np, e);
    TRY(netis<A>(s.front(), f, np));
    TRY(netis<A>(s.back(), e, np));
    TRY(netis<A>(*s.begin(), f, np));
    TRY(netis<A>(*s.rbegin(), e, np));
    return 0;
}
ENTRY int c16_subends4(const u8* a, size_t p, size_t d) { return subends<A4>(a, p, d); }
ENTRY int c16_subends6(const u8* a, size_t p, size_t d) { return subends<A6>(a, p, d); }
