// Entries whose only clause is that nothing undefined happens in any operation
// on a constructed object: the analyser reports every out-of-bounds access, use
// of an indeterminate value, oversized shift, signed overflow, division by zero
// and failed assertion it reaches.  Every byte of every result takes part in a
// branch, so an indeterminate one is reported.
#include "common.h"
#include <string>
#include <iterator>
#include <functional>
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
typedef ipx::uint128_t U;
typedef ipx::error_code EC;
struct Sink {
    int r = 0;
    void byte(u8 x) { if (x == 0x5A) r ^= 1; }
    void operator()(bool x) { if (x) r ^= 1; }
    void operator()(u32 x) { if (x == 77) r ^= 1; }
    void operator()(unsigned long x) { if (x == 77) r ^= 1; }
    void operator()(unsigned long long x) { if (x == 77) r ^= 1; }
    void operator()(int x) { if (x == 77) r ^= 1; }
    void operator()(long x) { if (x == 77) r ^= 1; }
    void operator()(long long x) { if (x == 77) r ^= 1; }
    void operator()(const U& x) { (*this)(x.lower()); (*this)(x.upper()); }
    void operator()(const A4& a) { for (size_t i = 0; i < 4; ++i) byte(a.bytes()[i]); }
    void operator()(const A6& a) { for (size_t i = 0; i < 16; ++i) byte(a.bytes()[i]); (*this)(bool(a.get_scope_id())); }
    void operator()(const AA& a) { for (size_t i = 0; i < a.size(); ++i) byte(a.data()[i]); (*this)(a.is_v6()); }
    template <class A> void operator()(const ipx::ip_network_base<A>& n) { (*this)(n.network_address()); (*this)(n.netmask()); (*this)(n.prefixlen()); }
    void operator()(const NA& n) { (*this)(n.network_address()); (*this)(n.netmask()); (*this)(n.prefixlen()); }
    template <class C> void operator()(const std::basic_string<C>& s) { (*this)(s.size()); for (size_t i = 0; i < s.size(); ++i) if (s[i] == C('z')) r ^= 1; }
    template <class T> void opt(const T& o) { if (o) (*this)(o.value()); }
};
template <class T> struct mk;
template <> struct mk<A4> { static A4 a(const u8* p, size_t) { return addr<A4>(p); } };
static void zone(A6& a, const u8* z, size_t n) {
    if (!n) return;
    EC c = NOERR;
    a.set_scope_id(std::string(reinterpret_cast<const char*>(z), n), c);
}
template <> struct mk<A6> { static A6 a(const u8* p, size_t z) { A6 x = addr<A6>(p); zone(x, p + 16, z); return x; } };
// the version is in the high bit of the scope length
template <> struct mk<AA> { static AA a(const u8* p, size_t z) { if (z & 256) return AA(addr<A4>(p)); return AA(mk<A6>::a(p, z)); } };
template <class T> struct net_of { typedef ipx::ip_network_base<void> type; };
template <> struct net_of<A4> { typedef N4 type; };
template <> struct net_of<A6> { typedef N6 type; };
template <> struct net_of<AA> { typedef NA type; };
template <class A> static typename net_of<A>::type mknet(const u8* a, size_t z, size_t p) {
    EC c = NOERR;
    return net_of<A>::type::from_address(mk<A>::a(a, z), c, p, false);
}
static void only6(Sink&, const A4&) {}
static void only6(Sink& s, const A6& a) {
    s(a.is_site_local()); s.opt(a.ipv4_mapped()); s.opt(a.sixtofour());
    if (auto t = a.teredo()) { s(t.value().first); s(t.value().second); }
    const auto z = a.get_scope_id();
    s(z.has_string()); s(z.has_uint32()); s(z.get_string()); s(z.get_uint32()); s(bool(z)); s(z == z); s(z < z);
}
static void only6(Sink& s, const AA& a) {
    s(a.is_v4()); s(a.size()); s((int)a.version()); s.opt(a.v4()); s.opt(a.v6());
    s.opt(a.ipv4_mapped()); s.opt(a.sixtofour());
    if (auto t = a.teredo()) { s(t.value().first); s(t.value().second); }
    s(a.is_site_local()); s(bool(a.get_scope_id()));
}
static void ints(Sink& s, const A4& a) { s((u32)a); s(a.to_uint()); s(A4::from_uint(a.to_uint())); s(A4::from_bytes(a.data(), 4)); }
static void ints(Sink& s, const A6& a) { s((U)a); s(a.to_uint()); s(A6::from_uint(a.to_uint())); s(A6::from_bytes(a.data(), 16)); }
static void ints(Sink& s, const AA& a) { s(a.to_uint128()); s(a.to_uint32()); s(AA::from_uint(a.to_uint32())); s(AA::from_uint(a.to_uint128())); s(AA::from_bytes(a.data(), a.size(), a.version())); }
template <class A> static int one(const u8* p, size_t z, int what, int fmt) {
    Sink s;
    A a = mk<A>::a(p, z);
    switch (what) {
    case 0: s(a); s(a.is_multicast()); s(a.is_private()); s(a.is_global()); s(a.is_reserved()); s(a.is_loopback()); s(a.is_link_local()); s(a.is_unspecified()); break;
    case 1: only6(s, a); break;
    case 2: ints(s, a); break;
    case 3: s(a.hash()); s(std::hash<A>()(a)); break;
    case 4: s(a.to_string((ipx::format)fmt)); break;
    case 5: s(a.to_wstring((ipx::format)fmt)); break;
    case 6: s(a.to_u16string((ipx::format)fmt)); break;
    case 7: s(a.to_u32string((ipx::format)fmt)); break;
    case 8: s(a.reverse_pointer()); break;
    case 9: s((std::string)a); s((std::wstring)a); break;
#if __cplusplus >= 202002L
    case 10: s(a.to_u8string((ipx::format)fmt)); break;
#endif
    default: break;
    }
    return s.r & 0;
}
template <class A> static int two(const u8* p, const u8* q, size_t z, size_t y, int what) {
    Sink s;
    A a = mk<A>::a(p, z), b = mk<A>::a(q, y);
    switch (what) {
    case 0: s(a == b); s(a != b); break;
    case 1: s(a < b); s(a > b); s(a <= b); s(a >= b); break;
    case 2: a.swap(b); s(a); s(b); a.swap(a); s(a); break;
    case 3: { using std::swap; swap(a, b); s(a); s(b); A c(a); c = b; b = a; s(b); s(c); } break;
#if __cplusplus >= 202002L
    case 4: s((a <=> b) == 0); s((a <=> b) < 0); break;
#endif
    default: break;
    }
    return s.r & 0;
}
static void net6(Sink&, const N4&) {}
static void net6(Sink& s, const N6& n) { s(n.is_site_local()); }
static void net6(Sink& s, const NA& n) { s(n.is_site_local()); s(n.is_v4()); s(n.size()); s.opt(n.v4()); s.opt(n.v6()); s((int)n.version()); }
template <class A> static int net1(const u8* p, size_t z, size_t len, int what, int fmt) {
    Sink s;
    typedef typename net_of<A>::type N;
    const N n = mknet<A>(p, z, len);
    switch (what) {
    case 0: s(n); s(n.broadcast_address()); s(n.hostmask()); s(n.addresses_count()); break;
    case 1: s(n.is_multicast()); s(n.is_private()); s(n.is_global()); s(n.is_reserved()); s(n.is_loopback()); s(n.is_link_local()); s(n.is_unspecified()); net6(s, n); break;
    case 2: s(n.hash()); s(std::hash<N>()(n)); break;
    case 3: s(n.to_string((ipx::format)fmt)); break;
    case 4: s(n.to_wstring((ipx::format)fmt)); s(n.to_u16string((ipx::format)fmt)); s(n.to_u32string((ipx::format)fmt)); break;
    case 5: s((std::string)n); break;
    case 6: { EC c = NOERR; s(N::from_address(mk<A>::a(p, z), c, len, true)); s((int)c); } break;
#if __cplusplus >= 202002L
    case 7: s(n.to_u8string((ipx::format)fmt)); break;
#endif
    default: break;
    }
    return s.r & 0;
}
template <class A> static int net2(const u8* p, const u8* q, size_t z, size_t y, size_t l, size_t m, int what) {
    Sink s;
    typedef typename net_of<A>::type N;
    N a = mknet<A>(p, z, l), b = mknet<A>(q, y, m);
    switch (what) {
    case 0: s(a.contains(mk<A>::a(q, y))); break;
    case 1: s(a.overlaps(b)); s(a.subnet_of(b)); s(a.supernet_of(b)); break;
    case 2: s(a == b); s(a != b); s(a < b); s(a > b); s(a <= b); s(a >= b); break;
    case 3: a.swap(b); s(a); s(b); { using std::swap; swap(a, b); } s(a); break;
#if __cplusplus >= 202002L
    case 4: s((a <=> b) == 0); s((a <=> b) < 0); break;
#endif
    default: break;
    }
    return s.r & 0;
}
// supernet and subnets with any difference and new prefix
template <class A> static int regroup(const u8* p, size_t z, size_t l, size_t d, size_t q, int has, int what) {
    Sink s;
    const auto n = mknet<A>(p, z, l);
    EC c = (EC)99;
    switch (what) {
    case 0: if (has) s(n.supernet(c, d, q)); else s(n.supernet(c, d)); break;
    default: {
        const auto t = has ? n.subnets(c, d, q) : n.subnets(c, d);
        s(t.empty()); s(t.size());
        if (!t.empty()) { s(t.front()); s(t.back()); s(t[0]); s(t.at(0)); }
    } break;
    }
    s((int)c);
    return s.r & 0;
}
// iterators: any distance
template <class S> static int walk(const S& t, int64_t n, int what) {
    Sink s;
    auto i = t.begin();
    auto e = t.end();
    switch (what) {
    case 0: s(*i); s(i[(int64_t)0]); ++i; s(i == e); --i; s(*i); i++; i--; s(*i); --e; s(*e); break;
    case 1: i += n; s(i == e); s(i < e); s(i > e); s(i <= e); s(i >= e); break;
    case 2: i -= n; s(i == e); break;
    case 3: { const auto j = i + n; s(i - j == 0); s(j - i == 0); } { const auto j = e - n; s(j - e == 0); s(i != j); } { const auto j = n + i; s(i == j); } break;
    case 4: s(i[n]); s(e[n]); break;
    case 5: { auto r = t.rbegin(); auto f = t.rend(); s(*r); ++r; --r; s(r == f); s(r < f); s(f - r == 0); r += n; r -= n; r++; r--; s(*r); } break;
    case 6: { auto j = i; auto k = e; j = k; k = i; i = std::move(j); s(i == e); s(k == t.begin()); using std::swap; swap(i, k); s(i == t.begin()); } break;
    case 7: s(t.cbegin() == i); s(t.crbegin() == t.rbegin()); s(t.cend() == e); s(t.crend() == t.rend()); s(t.empty()); s(t.size()); s(t.front()); s(t.back()); break;
    default: break;
    }
    return s.r & 0;
}
template <class I> static int blank() {
    Sink s;
    I i, j;
    s(i == j); s(i != j);
    I k(i); k = j; i = std::move(k);
    s(i == j);
    return s.r & 0;
}
#define FAMILY(X, A) \
ENTRY int ops_one_##X(const u8* a, size_t z, int what, int fmt) { return one<A>(a, z, what, fmt); } \
ENTRY int ops_two_##X(const u8* a, const u8* b, size_t z, size_t y, int what) { return two<A>(a, b, z, y, what); } \
ENTRY int ops_net1_##X(const u8* a, size_t z, size_t l, int what, int fmt) { return net1<A>(a, z, l, what, fmt); } \
ENTRY int ops_net2_##X(const u8* a, const u8* b, size_t z, size_t y, size_t l, size_t m, int what) { return net2<A>(a, b, z, y, l, m, what); } \
ENTRY int ops_regroup_##X(const u8* a, size_t z, size_t l, size_t d, size_t q, int has, int what) { return regroup<A>(a, z, l, d, q, has, what); } \
ENTRY int ops_hosts_##X(const u8* a, size_t z, size_t l, int64_t n, int what) { return walk(mknet<A>(a, z, l).hosts(), n, what); } \
ENTRY int ops_subnets_##X(const u8* a, size_t z, size_t l, size_t d, int64_t n, int what) { EC c = NOERR; return walk(mknet<A>(a, z, l).subnets(c, d), n, what); } \
ENTRY int ops_exclude_##X(const u8* a, const u8* b, size_t z, size_t l, size_t m) { \
    Sink s; EC c = (EC)99; \
    const auto t = mknet<A>(a, z, l).address_exclude(mknet<A>(b, z, m), c); \
    s((int)c); \
    for (auto i = t.begin(); i != t.end(); ++i) s(*i); \
    s(t.empty()); \
    return s.r & 0; }
FAMILY(4, A4)
FAMILY(6, A6)
FAMILY(a, AA)
// objects nobody has given a value
ENTRY int ops_blank(int what) {
    Sink s;
    switch (what) {
    case 0: s(A4()); s(A6()); s(AA()); s(N4()); s(N6()); s(NA()); s(U()); break;
    case 1: return blank<ipx::ip_address_iterator<A4>>();
    case 2: return blank<ipx::ip_address_iterator<A6>>();
    case 3: return blank<ipx::ip_network_iterator<N4>>();
    case 4: return blank<ipx::ip_network_iterator<N6>>();
    case 5: return blank<ipx::ip_exclude_network_iterator<N4>>();
    case 6: return blank<ipx::ip_exclude_network_iterator<N6>>();
    case 9: { ipx::subnets_sequence<N4> t; s(t.empty()); s(t.begin() == t.end()); } break;
    case 10: { ipx::subnets_sequence<N6> t; s(t.empty()); s(t.begin() == t.end()); } break;
    case 11: { ipx::exclude_network_sequence<N4> t; s(t.empty()); s(t.begin() == t.end()); } break;
    case 12: { ipx::exclude_network_sequence<N6> t; s(t.empty()); s(t.begin() == t.end()); } break;
    case 13: { ipx::exclude_network_sequence<NA> t; s(t.empty()); s(t.begin() == t.end()); } break;
    case 17: { ipx::optional<u32> o; s(bool(o)); ipx::optional<A6> p; s(bool(p)); o = 5; s(o.value()); s(*o); p = A6(); s(*p); } break;
    default: break;
    }
    return s.r & 0;
}
// the 128-bit integer
ENTRY int ops_u128(u64 h, u64 l, u64 g, u64 k, size_t sh, int what) {
    Sink s;
    U a(h, l), b(g, k);
    switch (what) {
    case 0: s(a + b); s(a - b); s(a & b); s(a | b); s(a ^ b); s(~a); s(-a); s(++a); s(--b); s(a++); s(b--); break;
    case 1: s(a == b); s(a != b); s(a < b); s(a > b); s(a <= b); s(a >= b); s(!a); s(bool(a)); break;
    case 2: s(a << sh); s(a >> sh); a <<= sh; s(a); a >>= sh; s(a); break;
    case 3: s(a * b); a *= b; s(a); break;
    case 4: s((u64)a); s((u32)a); s((int)a); s((long long)a); s((u8)a == 3); s(U((signed char)l)); s(U((int)l)); s(U((long long)l)); s(U((u32)l)); break;
    case 5: s(a / U(0, k)); break;
    case 6: s(a % U(0, k)); break;
    case 8: s(a.hash()); s(std::hash<U>()(a)); a.swap(b); s(a); break;
    case 9: s(a << (int)sh); s(a >> (int)sh); break;
    case 10: s(a / 10); s(a % 10); break;
    case 12: s((double)a == 0.0); s((float)a == 0.0f); break;
    default: break;
    }
    return s.r & 0;
}
