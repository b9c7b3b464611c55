// Formatting entries: the exact text of a value, written from the textual rules.
#include "common.h"
#include <string>
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
struct out { char c[96]; size_t n; out() : n(0) {} void put(char x) { c[n++] = x; } void str(const char* s) { while (*s) put(*s++); } };
static void dec(out& o, unsigned b) {
    if (b >= 100) o.put((char)('0' + b / 100));
    if (b >= 10) o.put((char)('0' + b / 10 % 10));
    o.put((char)('0' + b % 10));
}
static void quad(out& o, const u8* a) { for (int i = 0; i < 4; ++i) { if (i) o.put('.'); dec(o, a[i]); } }
static char hex(unsigned n) { return "0123456789abcdef"[n & 15]; }
// fmt: 0 full, 1 compact, 2 compressed
static void groups(out& o, const u8* a, int fmt) {
    int at = -1, len = 0;
    if (fmt == 2) for (int i = 0; i < 8;) {
        int k = i;
        while (k < 8 && a[2 * k] == 0 && a[2 * k + 1] == 0) ++k;
        if (k - i > len && k - i >= 2) { at = i; len = k - i; }
        i = k > i ? k : i + 1;
    }
    for (int i = 0; i < 8; ++i) {
        if (i == at) { o.put(':'); o.put(':'); i += len - 1; continue; }
        if (i && i != at + len) o.put(':');
        else if (i && at < 0) o.put(':');
        const unsigned d[4] = {(unsigned)a[2 * i] >> 4, (unsigned)a[2 * i] & 15, (unsigned)a[2 * i + 1] >> 4, (unsigned)a[2 * i + 1] & 15};
        int k = 0;
        if (fmt) while (k < 3 && d[k] == 0) ++k;
        for (; k < 4; ++k) o.put(hex(d[k]));
    }
}
static ipx::format fmt_of(int f) { return f == 0 ? ipx::format::full : f == 1 ? ipx::format::compact : ipx::format::compressed; }
template <class S> static int is(const S& s, const out& o) {
    REQUIRE(s.size() == o.n);
    for (size_t i = 0; i < o.n; ++i) REQUIRE(s[i] == (typename S::value_type)(unsigned char)o.c[i]);
    return 0;
}
// how: 0 to_string(fmt) 1 to_wstring 2 to_u16string 3 to_u32string 4 to_u8string (all with fmt);
// 5.. only for the default format: to_string(), std::to_string, std::to_wstring, conversions
template <class T> static int text(const T& x, const out& o, int fmt, int how) {
    switch (how) {
    case 0: return is(x.to_string(fmt_of(fmt)), o);
    case 1: return is(x.to_wstring(fmt_of(fmt)), o);
    case 2: return is(x.to_u16string(fmt_of(fmt)), o);
    case 3: return is(x.to_u32string(fmt_of(fmt)), o);
    case 4:
#if __cpp_char8_t >= 201811L
        return is(x.to_u8string(fmt_of(fmt)), o);
#else
        return 0;
#endif
    case 5: return is(x.to_string(), o);
#ifndef IPADDRESS_NO_OVERLOAD_STD
    case 6: return is(std::to_string(x), o);
    case 7: return is(std::to_wstring(x), o);
#endif
    case 8: return is((std::string)x, o);
    case 9: return is((std::wstring)x, o);
    case 10: return is((std::u16string)x, o);
    case 11: return is((std::u32string)x, o);
    case 12: return is(x.to_wstring(), o);
    case 13: return is(x.to_u16string(), o);
    case 14: return is(x.to_u32string(), o);
    default:
#if __cpp_char8_t >= 201811L
        if (how == 15) return is(x.to_u8string(), o);
        return is((std::u8string)x, o);
#else
        return 0;
#endif
    }
}
template <class A> static void write(out& o, const u8* a, int fmt);
template <> void write<A4>(out& o, const u8* a, int) { quad(o, a); }
template <> void write<A6>(out& o, const u8* a, int fmt) { groups(o, a, fmt); }
template <class A> static int address(const u8* a, int fmt, int how, int any) {
    out o; write<A>(o, a, fmt);
    const A x = addr<A>(a);
    return any ? text(AA(x), o, fmt, how) : text(x, o, fmt, how);
}
ENTRY int fmt_a4(const u8* a, int fmt, int how, int any) { return address<A4>(a, fmt, how, any); }
ENTRY int fmt_a6(const u8* a, int fmt, int how, int any) { return address<A6>(a, fmt, how, any); }
// networks: a is the network address
template <class A> static int network(const u8* a, size_t plen, int fmt, int how, int any) {
    typedef typename traits<A>::net Net;
    u8 f[traits<A>::N]; first(a, traits<A>::N, plen, f);
    out o; write<A>(o, f, fmt); o.put('/'); dec(o, (unsigned)plen);
    ipx::error_code code = NOERR;
    const Net x = Net::from_address(addr<A>(f), code, plen);
    REQUIRE(code == NOERR);
    return any ? text(NA(x), o, fmt, how) : text(x, o, fmt, how);
}
ENTRY int fmt_n4(const u8* a, size_t p, int fmt, int how, int any) { return network<A4>(a, p, fmt, how, any); }
ENTRY int fmt_n6(const u8* a, size_t p, int fmt, int how, int any) { return network<A6>(a, p, fmt, how, any); }
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
ENTRY int fmt_scope(const u8* a, const char* s, size_t n, int fmt, int how, int any) {
    out o; groups(o, a, fmt); o.put('%');
    for (size_t i = 0; i < n; ++i) o.put(s[i]);
    A6 x = addr<A6>(a);
    ipx::error_code code = NOERR;
    x.set_scope_id(std::string(s, n), code);
    REQUIRE(code == NOERR);
    return any ? text(AA(x), o, fmt, how) : text(x, o, fmt, how);
}
#endif
// reverse pointers
ENTRY int fmt_rev4(const u8* a, int any) {
    out o;
    for (int i = 3; i >= 0; --i) { dec(o, a[i]); o.put('.'); }
    o.str("in-addr.arpa");
    const A4 x = addr<A4>(a);
    return is(any ? AA(x).reverse_pointer() : x.reverse_pointer(), o);
}
ENTRY int fmt_rev6(const u8* a, int any) {
    out o;
    for (int i = 15; i >= 0; --i) { o.put(hex(a[i] & 15)); o.put('.'); o.put(hex(a[i] >> 4)); o.put('.'); }
    o.str("ip6.arpa");
    const A6 x = addr<A6>(a);
    return is(any ? AA(x).reverse_pointer() : x.reverse_pointer(), o);
}
// formatting and parsing back
template <class A> static int round(const u8* a, int fmt, int any) {
    const A x = addr<A>(a);
    ipx::error_code code = NOERR;
    if (any) { const AA y = AA::parse(AA(x).to_string(fmt_of(fmt)), code); REQUIRE(code == NOERR); REQUIRE(y == AA(x)); return 0; }
    const A y = A::parse(x.to_string(fmt_of(fmt)), code);
    REQUIRE(code == NOERR); REQUIRE(y == x);
    return 0;
}
ENTRY int fmt_back4(const u8* a, int fmt, int any) { return round<A4>(a, fmt, any); }
ENTRY int fmt_back6(const u8* a, int fmt, int any) { return round<A6>(a, fmt, any); }
template <class A> static int roundn(const u8* a, size_t plen, int fmt) {
    typedef typename traits<A>::net Net;
    u8 f[traits<A>::N]; first(a, traits<A>::N, plen, f);
    ipx::error_code code = NOERR;
    const Net x = Net::from_address(addr<A>(f), code, plen);
    const Net y = Net::parse(x.to_string(fmt_of(fmt)), code);
    REQUIRE(code == NOERR); REQUIRE(y == x); REQUIRE(y.prefixlen() == plen);
    return 0;
}
ENTRY int fmt_backn4(const u8* a, size_t p, int fmt) { return roundn<A4>(a, p, fmt); }
ENTRY int fmt_backn6(const u8* a, size_t p, int fmt) { return roundn<A6>(a, p, fmt); }
