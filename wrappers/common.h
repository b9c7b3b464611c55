// Analysis entries: small functions that state one clause of a property over
// the public API.  They are compiled to LLVM IR and only ever *analysed*; a
// non-zero result is the line of the clause that does not hold.
#pragma once
#ifdef BF_MODULE_UNDER_ANALYSIS
#include "module.h"
#else
#include <ipaddress/ipaddress.hpp>
#endif
#ifndef IPADDRESS_NAMESPACE
#define IPADDRESS_NAMESPACE ipaddress
#endif
#include <cstdint>
#include <cstddef>
#include <string>
namespace ipx = IPADDRESS_NAMESPACE;
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
#define ENTRY extern "C" __attribute__((used, noinline))
#define REQUIRE(c) do { if (!(c)) return __LINE__; } while (0)
#define NOERR ipx::error_code::no_error

namespace spec {
template <class A> struct traits;
template <> struct traits<ipx::ipv4_address> { typedef ipx::ipv4_network net; enum { N = 4, BITS = 32 }; };
template <> struct traits<ipx::ipv6_address> { typedef ipx::ipv6_network net; enum { N = 16, BITS = 128 }; };

template <class A> static A addr(const u8* p) {
    typename A::base_type b{};
    for (size_t i = 0; i < traits<A>::N; ++i) b[i] = p[i];
    return A(b);
}
template <class A> static bool same(const A& a, const u8* p) {
    const auto& b = a.bytes();
    for (size_t i = 0; i < traits<A>::N; ++i) if (b[i] != p[i]) return false;
    return true;
}
static inline bool eqb(const u8* a, const u8* b, size_t n) {
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false;
    return true;
}
// big-endian byte masks
static inline u8 maskbyte(size_t plen, size_t i) {
    if (plen >= (i + 1) * 8) return 0xFF;
    if (plen <= i * 8) return 0;
    static const u8 t[8] = {0, 0x80, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE};
    return t[plen - i * 8];
}
static inline bool hostbits(const u8* a, size_t n, size_t plen) {
    for (size_t i = 0; i < n; ++i) if (a[i] & (u8)~maskbyte(plen, i)) return true;
    return false;
}
static inline void first(const u8* a, size_t n, size_t plen, u8* o) { for (size_t i = 0; i < n; ++i) o[i] = (u8)(a[i] & maskbyte(plen, i)); }
static inline void last(const u8* a, size_t n, size_t plen, u8* o) { for (size_t i = 0; i < n; ++i) o[i] = (u8)(a[i] | (u8)~maskbyte(plen, i)); }
static inline bool inprefix(const u8* a, const u8* net, size_t n, size_t plen) {
    for (size_t i = 0; i < n; ++i) if ((a[i] ^ net[i]) & maskbyte(plen, i)) return false;
    return true;
}
static inline int cmp(const u8* a, const u8* b, size_t n) {
    for (size_t i = 0; i < n; ++i) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; }
    return 0;
}
// the whole state of a network, checked against (network bits, prefix)
template <class A> static int netis(const typename traits<A>::net& n, const u8* base, size_t plen) {
    enum { N = traits<A>::N };
    u8 f[N], l[N];
    first(base, N, plen, f); last(base, N, plen, l);
    if (!(n.prefixlen() == plen)) return __LINE__;
    if (!(same(n.network_address(), f))) return __LINE__;
    const auto nm = n.netmask(); const auto hm = n.hostmask(); const auto bc = n.broadcast_address();
    for (size_t i = 0; i < N; ++i) {
        if (nm.bytes()[i] != maskbyte(plen, i)) return __LINE__;
        if (hm.bytes()[i] != (u8)~maskbyte(plen, i)) return __LINE__;
    }
    if (!same(bc, l)) return __LINE__;
    return 0;
}
// big-endian +1 / -1 / + n*2^sh
static inline void inc(const u8* a, size_t n, u8* o) { unsigned c = 1; for (size_t i = n; i-- > 0;) { c += a[i]; o[i] = (u8)c; c >>= 8; } }
}
#define BOTH(name) \
    template <class A> static int name##_t
