// Entries whose only clause is that nothing undefined happens: the analyser
// reports every out-of-bounds access, use of an indeterminate value, oversized
// shift, signed overflow, division by zero and failed assertion it reaches.
#include "common.h"
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
#if __cplusplus >= 201703L
#define VIEW(C, t, n) std::basic_string_view<C>(t, n)
#else
#define VIEW(C, t, n) std::basic_string<C>(t, n)
#endif
// every byte of the result takes part in a branch: an indeterminate one is reported
static int use(const u8* p, size_t n) { int r = 0; for (size_t i = 0; i < n; ++i) if (p[i] == 0x5A) r = 1; return r; }
static int used(const A4& a) { return use(a.data(), 4); }
static int used(const A6& a) { return use(a.data(), 16) | (a.get_scope_id() ? 1 : 0); }
static int used(const AA& a) { return use(a.data(), a.size()); }
template <class N> static int used(const N& n) { return used(n.network_address()) | (n.prefixlen() == 3); }
template <class R, class C> static int parse(const C* t, size_t n, int how, int) {
    ipx::error_code c;
    switch (how) {
    case 0: (void)used(R::parse(VIEW(C, t, n), c)); break;
    case 1: (void)used(R::parse(std::basic_string<C>(t, n), c)); break;
    case 2: (void)used(R::parse(*reinterpret_cast<const C(*)[8]>(t), c)); break;
    case 3: (void)used(R::parse(*reinterpret_cast<const C(*)[24]>(t), c)); break;
    default: (void)used(R::parse(*reinterpret_cast<const C(*)[72]>(t), c)); break;
    }
    return c == (ipx::error_code)77 ? 0 : 0;
}
template <class C> static int setscope(const C* t, size_t n, int how) {
    A6 a; ipx::error_code c;
    switch (how) {
    case 0: a.set_scope_id(VIEW(C, t, n), c); break;
    default: a.set_scope_id(std::basic_string<C>(t, n), c); break;
    }
    const auto s = a.get_scope_id();
    (void)used(a);
    return s.get_string() == "zz" || s.get_uint32() == 7 ? 0 : 0;
}
#define ALL(X, C) \
ENTRY int safe_scope_##X(const C* t, size_t n, int how) { return setscope<C>(t, n, how); } \
ENTRY int safe_a4_##X(const C* t, size_t n, int how) { return parse<A4, C>(t, n, how, 0); } \
ENTRY int safe_a6_##X(const C* t, size_t n, int how) { return parse<A6, C>(t, n, how, 0); } \
ENTRY int safe_aa_##X(const C* t, size_t n, int how) { return parse<AA, C>(t, n, how, 0); } \
ENTRY int safe_n4_##X(const C* t, size_t n, int how) { return parse<N4, C>(t, n, how, 0); } \
ENTRY int safe_n6_##X(const C* t, size_t n, int how) { return parse<N6, C>(t, n, how, 0); } \
ENTRY int safe_na_##X(const C* t, size_t n, int how) { return parse<NA, C>(t, n, how, 0); }
ALL(c, char)
ALL(w, wchar_t)
ALL(c16, char16_t)
ALL(c32, char32_t)
#if __cplusplus >= 202002L
ALL(c8, char8_t)
#endif
