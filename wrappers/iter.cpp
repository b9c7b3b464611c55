#include "common.h"
#include <iterator>
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
static inline u32 uint_of(const A4*, const u8* i) { return (u32)i[12] << 24 | (u32)i[13] << 16 | (u32)i[14] << 8 | i[15]; }
static inline ipx::uint128_t uint_of(const A6*, const u8* i) {
    u64 h = 0, l = 0;
    for (int k = 0; k < 8; ++k) { h = h << 8 | i[k]; l = l << 8 | i[8 + k]; }
    return ipx::uint128_t(h, l);
}
template <class A> static typename traits<A>::net mk(const u8* a, size_t plen) {
    ipx::error_code code = NOERR;
    return traits<A>::net::from_address(addr<A>(a), code, plen, false);
}
// a + k * 2^sh, big-endian (k < 2^16)
static inline void plus(const u8* a, size_t n, size_t k, size_t sh, u8* o) {
    unsigned c = 0;
    const size_t low = sh / 8, s = sh % 8, add = k << s;
    for (size_t i = 0; i < n; ++i) {
        const size_t at = n - 1 - i;
        c += a[at];
        if (i >= low && i < low + 3) c += (add >> (8 * (i - low))) & 0xFF;
        o[at] = (u8)c; c >>= 8;
    }
}
// the hosts of a network: how many, and element k
template <class A> struct hosts_of {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename A::uint_type U;
    u8 base[N]; size_t plen;
    hosts_of(const u8* a, size_t p) : plen(p) { first(a, N, p, base); }
    ipx::hosts_sequence<A> seq() const { return mk<A>(base, plen).hosts(); }
    size_t count() const { const size_t h = BITS - plen; return h == 0 ? 1 : h == 1 ? 2 : N == 4 ? ((size_t)1 << h) - 2 : ((size_t)1 << h) - 1; }
    int is(const A& x, size_t k) const { u8 e[N]; plus(base, N, k + (plen >= BITS - 1 ? 0 : 1), 0, e); REQUIRE(same(x, e)); return 0; }
};
// the subnetworks of a network
template <class A> struct subs_of {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename A::uint_type U;
    u8 base[N]; size_t plen, diff;
    subs_of(const u8* a, size_t p, size_t d) : plen(p), diff(d) { first(a, N, p, base); }
    ipx::subnets_sequence<typename traits<A>::net> seq() const { ipx::error_code c = NOERR; return mk<A>(base, plen).subnets(c, diff); }
    size_t count() const { return plen == BITS ? 1 : (size_t)1 << diff; }
    int is(const typename traits<A>::net& x, size_t k) const { u8 e[N]; const size_t np = plen == BITS ? plen : plen + diff; plus(base, N, k, BITS - np, e); return netis<A>(x, e, np); }
};
template <class It> static int ordered(const It& a, const It& b, int c) {
    REQUIRE((a == b) == (c == 0)); REQUIRE((a != b) == (c != 0));
    REQUIRE((a < b) == (c < 0)); REQUIRE((a > b) == (c > 0));
    REQUIRE((a <= b) == (c <= 0)); REQUIRE((a >= b) == (c >= 0));
    return 0;
}
template <class W> static int laws(const W& w, int part) {
    typedef typename W::U U;
    const auto s = w.seq();
    const size_t n = w.count();
    size_t k = 0;
    switch (part) {
    case 0:
        for (auto it = s.begin(); it != s.end(); ++k) {
            REQUIRE(k < n);
            TRY(w.is(*it, k));
            if (k & 1) { auto old = it++; TRY(w.is(*old, k)); } else { auto& r = ++it; REQUIRE(&r == &it); }
        }
        REQUIRE(k == n);
        REQUIRE(s.empty() == (n == 0));
        REQUIRE(s.size() == n);
        break;
    case 1:
        for (auto it = s.end(); it != s.begin(); ++k) {
            REQUIRE(k < n);
            if (k & 1) { auto old = it--; REQUIRE(old != it); } else { auto& r = --it; REQUIRE(&r == &it); }
            TRY(w.is(*it, n - 1 - k));
        }
        REQUIRE(k == n);
        break;
    case 2:
        for (auto it = s.rbegin(); it != s.rend(); ++k) {
            REQUIRE(k < n);
            TRY(w.is(*it, n - 1 - k));
            if (k & 1) { auto old = it++; TRY(w.is(*old, n - 1 - k)); } else { auto& r = ++it; REQUIRE(&r == &it); }
        }
        REQUIRE(k == n);
        for (auto it = s.crend(); it != s.crbegin(); --k) {
            REQUIRE(k > 0);
            if (k & 1) --it; else { auto old = it--; REQUIRE(old != it); }
            TRY(w.is(*it, n - k));
        }
        REQUIRE(k == 0);
        break;
    case 3: {
        const auto b = s.begin(); const auto e = s.cend();
        for (k = 0; k < n; ++k) {
            TRY(w.is(s[U(k)], k)); TRY(w.is(s.at(U(k)), k));
            TRY(w.is(*(b + (std::int64_t)k), k)); TRY(w.is(*(b + U(k)), k)); TRY(w.is(*((std::int64_t)k + b), k)); TRY(w.is(*(U(k) + b), k));
            TRY(w.is(b[(std::int64_t)k], k)); TRY(w.is(b[U(k)], k));
            TRY(w.is(*(e - (std::int64_t)(n - k)), k)); TRY(w.is(*(e - U(n - k)), k));
        }
        if (n) { TRY(w.is(s.front(), 0)); TRY(w.is(s.back(), n - 1)); }
        break; }
    case 4:
        for (size_t i = 0; i <= n; ++i) {
            const auto x = s.begin() + (std::int64_t)i;
            for (size_t j = i; j <= n; ++j) {
                const auto y = s.begin() + U(j);
                TRY(ordered(x, y, i < j ? -1 : 0)); TRY(ordered(y, x, i < j ? 1 : 0));
                REQUIRE(y - x == (std::int64_t)(j - i)); REQUIRE(x - y == -(std::int64_t)(j - i));
                REQUIRE(y.uint_diff(x) == U(j - i));
            }
            REQUIRE(x + (std::int64_t)(n - i) == s.end());
        }
        break;
    case 5:
        for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j) {
            auto it = s.begin() + U(i);
            const std::int64_t d = (std::int64_t)j - (std::int64_t)i;
            { auto& r = (it += d); REQUIRE(&r == &it); REQUIRE(it == s.begin() + U(j)); }
            if (j < n) TRY(w.is(*it, j));
            { auto& r = (it -= d); REQUIRE(&r == &it); REQUIRE(it == s.begin() + U(i)); }
            if (i < n) TRY(w.is(*it, i));
            REQUIRE((it - (-d)) == s.begin() + U(j)); REQUIRE((it + d) == s.begin() + U(j));
            if (j >= i) { auto q = it; q += U(j - i); REQUIRE(q == s.begin() + U(j)); q -= U(j - i); REQUIRE(q == it); }
        }
        break;
    case 6: {
        const auto r = s.rbegin();
        REQUIRE(r.base() == s.end()); REQUIRE(s.rend().base() == s.begin());
        for (size_t i = 0; i <= n; ++i) {
            const auto x = r + (std::int64_t)i;
            REQUIRE(x.base() == s.end() - (std::int64_t)i);
            if (i < n) { TRY(w.is(*x, n - 1 - i)); TRY(w.is(r[(std::int64_t)i], n - 1 - i)); TRY(w.is(*(r + U(i)), n - 1 - i)); }
            for (size_t j = i; j <= n; ++j) {
                const auto y = r + U(j);
                TRY(ordered(x, y, i < j ? -1 : 0));
                REQUIRE(y - x == (std::int64_t)(j - i)); REQUIRE(x - y == -(std::int64_t)(j - i));
                REQUIRE(y - (std::int64_t)(j - i) == x); REQUIRE(y - U(j - i) == x);
            }
        }
        break; }
    default: { // a copy is independent of the original
        auto it = s.begin(); auto copy = it; ++it;
        REQUIRE(copy == s.begin()); REQUIRE(copy != it);
        auto c2 = s; REQUIRE(c2.begin() == s.begin()); REQUIRE(c2.end() == s.end()); REQUIRE(c2.size() == s.size());
        break; }
    }
    return 0;
}
ENTRY int c18_hosts4(const u8* a, size_t p, int part) { return laws(hosts_of<A4>(a, p), part); }
ENTRY int c18_hosts6(const u8* a, size_t p, int part) { return laws(hosts_of<A6>(a, p), part); }
ENTRY int c18_subs4(const u8* a, size_t p, size_t d, int part) { return laws(subs_of<A4>(a, p, d), part); }
ENTRY int c18_subs6(const u8* a, size_t p, size_t d, int part) { return laws(subs_of<A6>(a, p, d), part); }
// any size: ends, size and the element at an unknown index
template <class A> static int big(const u8* a, size_t plen) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename A::uint_type U;
    u8 f[N], l[N], e[N];
    first(a, N, plen, f); last(a, N, plen, l);
    const auto s = mk<A>(f, plen).hosts();
    const bool all = plen >= BITS - 1;
    // 2^h - (2 or 1) as bits
    const U size = s.size() + (all ? 0U : N == 4 ? 2U : 1U);
    for (size_t i = 0; i < BITS; ++i) REQUIRE(((u64)((size >> i) & 1U) != 0) == (i == BITS - plen));
    REQUIRE(!s.empty());
    plus(f, N, all ? 0 : 1, 0, e);
    REQUIRE(same(*s.begin(), e)); REQUIRE(same(s.front(), e));
    inc(l, N, e);
    // one before the last for IPv4, the last for IPv6 and for the two smallest sizes
    u8 b[N];
    for (size_t i = 0; i < N; ++i) b[i] = l[i];
    if (!all && N == 4) b[N - 1] = (u8)(b[N - 1] - 1);
    REQUIRE(same(s.back(), b)); REQUIRE(same(*s.rbegin(), b));
    { auto it = s.end(); --it; REQUIRE(same(*it, b)); ++it; REQUIRE(it == s.end()); }
    REQUIRE(s.begin() < s.end()); REQUIRE(!(s.end() < s.begin())); REQUIRE(s.begin() != s.end());
    return 0;
}
ENTRY int c18_big4(const u8* a, size_t p) { return big<A4>(a, p); }
ENTRY int c18_big6(const u8* a, size_t p) { return big<A6>(a, p); }
template <class A> static int at_(const u8* a, size_t plen, const u8* idx, const u8* e, int how) {
    const auto s = mk<A>(a, plen).hosts();
    const auto i = uint_of((const A*)0, idx);
    if (how == 0) { REQUIRE(same(s[i], e)); }
    else if (how == 1) { REQUIRE(same(s.at(i), e)); }
    else if (how == 2) { REQUIRE(same(*(s.begin() + i), e)); }
    else if (how == 3) { REQUIRE(same(s.begin()[i], e)); }
    else { auto it = s.begin(); it += i; REQUIRE(same(*it, e)); REQUIRE(it.uint_diff(s.begin()) == i); it -= i; REQUIRE(*it == s.front()); }
    return 0;
}
ENTRY int c18_at4(const u8* a, size_t p, const u8* i, const u8* e, int h) { return at_<A4>(a, p, i, e, h); }
ENTRY int c18_at6(const u8* a, size_t p, const u8* i, const u8* e, int h) { return at_<A6>(a, p, i, e, h); }

// ---- C17
template <class A> static int exclude(const u8* b, size_t p, size_t q, int stale, int how) {
    enum { N = traits<A>::N, BITS = traits<A>::BITS };
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(b, p), o = mk<A>(b, q);
    ipx::error_code code = (ipx::error_code)stale;
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (how == 1) code = NOERR;
    const auto s = how == 1 ? n.address_exclude(o) : n.address_exclude(o, code);
#else
    const auto s = n.address_exclude(o, code);
#endif
    REQUIRE(code == NOERR);
    REQUIRE(s.empty() == (p == q));
    bool seen[BITS + 1] = {};
    size_t k = 0;
    auto it = s.begin();
    while (it != s.end()) {
        REQUIRE(k < q - p);
        const Net x = *it;
        const size_t len = x.prefixlen();
        REQUIRE(len > p && len <= q);
        REQUIRE(!seen[len]);
        seen[len] = true;
        u8 e[N];
        first(b, N, len, e);
        e[(len - 1) / 8] ^= (u8)(0x80 >> ((len - 1) % 8));
        TRY(netis<A>(x, e, len));
        if (k & 1) { auto old = it++; REQUIRE(*old == x); } else ++it;
        ++k;
    }
    REQUIRE(k == q - p);
    return 0;
}
ENTRY int c17_exclude4(const u8* b, size_t p, size_t q, int c, int h) { return exclude<A4>(b, p, q, c, h); }
ENTRY int c17_exclude6(const u8* b, size_t p, size_t q, int c, int h) { return exclude<A6>(b, p, q, c, h); }
template <class A> static int reject(const u8* x, size_t p, const u8* y, size_t q, int stale) {
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(x, p), o = mk<A>(y, q);
    ipx::error_code code = (ipx::error_code)stale;
    const auto s = n.address_exclude(o, code);
    REQUIRE(code == ipx::error_code::not_contained_network);
    REQUIRE(s.empty()); REQUIRE(s.begin() == s.end());
    return 0;
}
ENTRY int c17_reject4(const u8* x, size_t p, const u8* y, size_t q, int c) { return reject<A4>(x, p, y, q, c); }
ENTRY int c17_reject6(const u8* x, size_t p, const u8* y, size_t q, int c) { return reject<A6>(x, p, y, q, c); }
#ifndef IPADDRESS_NO_EXCEPTIONS
template <class A> static int rejectx(const u8* x, size_t p, const u8* y, size_t q) {
    typedef typename traits<A>::net Net;
    const Net n = mk<A>(x, p), o = mk<A>(y, q);
    try { const auto s = n.address_exclude(o); (void) s; return __LINE__; }
    catch (const ipx::logic_error& e) { REQUIRE(e.code() == ipx::error_code::not_contained_network); }
    return 0;
}
ENTRY int c17_rejectx4(const u8* x, size_t p, const u8* y, size_t q) { return rejectx<A4>(x, p, y, q); }
ENTRY int c17_rejectx6(const u8* x, size_t p, const u8* y, size_t q) { return rejectx<A6>(x, p, y, q); }
#endif
// scope ids do not belong to a network's address set
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 3
ENTRY int c17_scoped(const u8* b, size_t p, size_t q) {
    ipx::error_code code = NOERR;
    A6 x = addr<A6>(b), y = addr<A6>(b);
    { u8 f[16]; first(b, 16, p, f); x = addr<A6>(f); first(b, 16, q, f); y = addr<A6>(f); }
    x.set_scope_id("ab", code); y.set_scope_id("xyz", code);
    const auto n = traits<A6>::net::from_address(x, code, p, true); REQUIRE(code == NOERR);
    const auto o = traits<A6>::net::from_address(y, code, q, true); REQUIRE(code == NOERR);
    const auto s = n.address_exclude(o, code);
    REQUIRE(code == NOERR);
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { REQUIRE(k < q - p); ++k; REQUIRE(!o.contains(it->network_address())); REQUIRE(n.contains(it->network_address())); REQUIRE(n.contains(it->broadcast_address())); }
    REQUIRE(k == q - p);
    return 0;
}
#endif
