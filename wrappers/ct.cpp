// Compile-time witnesses: every operation evaluated as a constant expression, against the value the
// definitions give; the guarantees of the types.  Never run: it has to type-check.
#ifdef BF_MODULE_UNDER_ANALYSIS
#include "module.h"
#else
#include <ipaddress/ipaddress.hpp>
#endif
#include <type_traits>
#include <iterator>
#ifndef IPADDRESS_NAMESPACE
#define IPADDRESS_NAMESPACE ipaddress
#endif
namespace x = IPADDRESS_NAMESPACE;
using namespace IPADDRESS_NAMESPACE;
typedef x::ipv4_address A4; typedef x::ipv6_address A6; typedef x::ip_address AA;
typedef x::ipv4_network N4; typedef x::ipv6_network N6; typedef x::ip_network NA;
typedef x::uint128_t U;
#define TYPE(...) static_assert(__VA_ARGS__, #__VA_ARGS__);

// ---- guarantees of the types (every language level) ----
template <class T> struct value_type {
    TYPE(std::is_trivially_copyable<T>::value)
    TYPE(std::is_trivially_destructible<T>::value)
    TYPE(std::is_nothrow_default_constructible<T>::value)
    TYPE(std::is_nothrow_copy_constructible<T>::value)
    TYPE(std::is_nothrow_move_constructible<T>::value)
    TYPE(std::is_nothrow_copy_assignable<T>::value)
    TYPE(std::is_nothrow_move_assignable<T>::value)
    TYPE(noexcept(std::declval<T&>().swap(std::declval<T&>())))
    TYPE(noexcept(std::declval<const T&>().hash()))
    TYPE(noexcept(std::declval<const T&>() == std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() != std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() < std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() <= std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() > std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() >= std::declval<const T&>()))
};
template struct value_type<A4>;
template struct value_type<A6>;
template struct value_type<N4>;
template struct value_type<N6>;
template struct value_type<U>;
template <class T> struct any_type {
    TYPE(std::is_trivially_copyable<T>::value)
    TYPE(std::is_trivially_destructible<T>::value)
    TYPE(std::is_nothrow_default_constructible<T>::value)
    TYPE(std::is_nothrow_copy_constructible<T>::value)
    TYPE(std::is_nothrow_copy_assignable<T>::value)
    TYPE(noexcept(std::declval<T&>().swap(std::declval<T&>())))
    TYPE(noexcept(std::declval<const T&>().hash()))
    TYPE(noexcept(std::declval<const T&>() == std::declval<const T&>()))
    TYPE(noexcept(std::declval<const T&>() < std::declval<const T&>()))
};
template struct any_type<AA>;
template struct any_type<NA>;
template <class A> struct address_type {
    typedef const A& C;
    TYPE(noexcept(std::declval<C>().is_multicast()))
    TYPE(noexcept(std::declval<C>().is_private()))
    TYPE(noexcept(std::declval<C>().is_global()))
    TYPE(noexcept(std::declval<C>().is_reserved()))
    TYPE(noexcept(std::declval<C>().is_loopback()))
    TYPE(noexcept(std::declval<C>().is_link_local()))
    TYPE(noexcept(std::declval<C>().is_unspecified()))
    TYPE(noexcept(std::declval<C>().data()))
    TYPE(noexcept(A::parse("", std::declval<x::error_code&>())))
#if IPADDRESS_CPP_VERSION >= 17
    TYPE(noexcept(A::parse(std::string_view(), std::declval<x::error_code&>())))
#endif
};
template struct address_type<A4>;
template struct address_type<A6>;
template struct address_type<AA>;
template <class N, class A> struct network_type {
    typedef const N& C;
    TYPE(noexcept(std::declval<C>().contains(std::declval<const A&>())))
    TYPE(noexcept(std::declval<C>().overlaps(std::declval<C>())))
    TYPE(noexcept(std::declval<C>().subnet_of(std::declval<C>())))
    TYPE(noexcept(std::declval<C>().supernet_of(std::declval<C>())))
    TYPE(noexcept(std::declval<C>().network_address()))
    TYPE(noexcept(std::declval<C>().broadcast_address()))
    TYPE(noexcept(std::declval<C>().netmask()))
    TYPE(noexcept(std::declval<C>().hostmask()))
    TYPE(noexcept(std::declval<C>().prefixlen()))
    TYPE(noexcept(std::declval<C>().addresses_count()))
    TYPE(noexcept(std::declval<C>().hosts()))
    TYPE(noexcept(std::declval<C>().is_multicast()))
    TYPE(noexcept(std::declval<C>().is_private()))
    TYPE(noexcept(std::declval<C>().is_global()))
    TYPE(noexcept(std::declval<C>().subnets(std::declval<x::error_code&>())))
    TYPE(noexcept(std::declval<C>().supernet(std::declval<x::error_code&>())))
    TYPE(noexcept(std::declval<C>().address_exclude(std::declval<C>(), std::declval<x::error_code&>())))
    TYPE(noexcept(N::from_address(std::declval<A>(), std::declval<x::error_code&>(), 0)))
    TYPE(noexcept(N::parse("", std::declval<x::error_code&>())))
};
template struct network_type<N4, A4>;
template struct network_type<N6, A6>;
template struct network_type<NA, AA>;
template <class I> struct iterator_type {
    TYPE(std::is_nothrow_copy_constructible<I>::value)
    TYPE(noexcept(*std::declval<const I&>()))
    TYPE(noexcept(++std::declval<I&>()))
    TYPE(noexcept(std::declval<const I&>() == std::declval<const I&>()))
};
template struct iterator_type<decltype(std::declval<N4>().hosts().begin())>;
template struct iterator_type<decltype(std::declval<N6>().hosts().begin())>;
template struct iterator_type<decltype(std::declval<N4>().subnets().begin())>;
template struct iterator_type<decltype(std::declval<N6>().subnets().begin())>;

#if IPADDRESS_CPP_VERSION >= 14
#define CT(...) static_assert(__VA_ARGS__, #__VA_ARGS__);
#define V4(t) A4::parse(t)
#define V6(t) A6::parse(t)
// ---- addresses ----
CT(V4("1.2.3.4").to_uint() == 0x01020304u)
CT(V4(L"1.2.3.4") == A4::from_uint(0x01020304u))
CT(V4(u"255.255.255.255").to_uint() == 0xffffffffu)
CT(V4(U"0.0.0.0") == A4())
CT("10.0.0.1"_ipv4 == V4("10.0.0.1"))
CT(L"10.0.0.1"_ipv4 == V4("10.0.0.1"))
CT(u"10.0.0.1"_ipv4 == V4("10.0.0.1"))
CT(U"10.0.0.1"_ipv4 == V4("10.0.0.1"))
CT(V4("9.8.7.6").bytes()[0] == 9 && V4("9.8.7.6").bytes()[3] == 6)
CT(V4("9.8.7.6").size() == 4 && V4("9.8.7.6").version() == x::ip_version::V4)
CT(V4("1.2.3.4") < V4("1.2.4.3") && V4("1.2.3.4") <= V4("1.2.3.4") && V4("2.0.0.0") > V4("1.255.255.255") && V4("2.0.0.0") >= V4("2.0.0.0") && V4("2.0.0.0") != V4("2.0.0.1"))
CT(V4("1.2.3.4").hash() == A4::from_uint(0x01020304u).hash())
CT(V4("224.0.0.1").is_multicast() && !V4("223.255.255.255").is_multicast())
CT(V4("10.1.2.3").is_private() && !V4("11.1.2.3").is_private())
CT(V4("8.8.8.8").is_global() && !V4("127.0.0.1").is_global() && V4("127.0.0.1").is_loopback() && V4("240.0.0.1").is_reserved() && V4("169.254.0.1").is_link_local() && V4("0.0.0.0").is_unspecified())
CT(V6("1:2:3:4:5:6:7:8").to_uint() == U(0x0001000200030004ull, 0x0005000600070008ull))
CT(V6("::1").to_uint() == U(0, 1))
CT(V6(L"::ffff:1.2.3.4").to_uint() == U(0, 0xffff01020304ull))
CT(V6(u"fe80::") == A6::from_uint(U(0xfe80000000000000ull, 0)))
CT(V6(U"::") == A6())
CT("2001:db8::1"_ipv6 == V6("2001:DB8:0:0::1"))
CT(u"2001:db8::1"_ipv6 == V6("2001:DB8:0:0::1"))
CT(V6("::1").size() == 16 && V6("::1").version() == x::ip_version::V6 && V6("::ab").bytes()[15] == 0xab)
CT(V6("::1") < V6("::2") && V6("::2") > V6("::1") && V6("::2") <= V6("::2") && V6("1::") >= V6("::2") && V6("1::") != V6("::1"))
CT(V6("::1").hash() == A6::from_uint(U(0, 1)).hash())
CT(V6("ff00::1").is_multicast() && V6("fc00::1").is_private() && V6("2606:4700::1").is_global() && V6("::1").is_loopback() && V6("fe80::1").is_link_local() && V6("::").is_unspecified() && V6("fec0::1").is_site_local() && V6("4000::1").is_reserved())
CT(V6("::ffff:1.2.3.4").ipv4_mapped().value() == V4("1.2.3.4") && !V6("::1.2.3.4").ipv4_mapped())
CT(V6("2002:102:304::1").sixtofour().value() == V4("1.2.3.4") && !V6("2003::").sixtofour())
CT(V6("2001:0:102:304::fefd:fcfb").teredo().value().first == V4("1.2.3.4") && V6("2001:0:102:304::fefd:fcfb").teredo().value().second == V4("1.2.3.4"))
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 2
CT(V6("fe80::1%12").get_scope_id().has_uint32() && V6("fe80::1%12").get_scope_id().get_uint32() == 12)
CT(V6("fe80::1%12") != V6("fe80::1") && V6("fe80::1") < V6("fe80::1%12"))
constexpr A6 scoped() { A6 a = V6("fe80::1"); a.set_scope_id("7"); return a; }
CT(scoped() == V6("fe80::1%7"))
constexpr x::error_code badscope() { A6 a = V6("fe80::1"); x::error_code c = x::error_code::no_error; a.set_scope_id("a%b", c); return c; }
CT(badscope() == x::error_code::invalid_scope_id)
#endif
template <class A> constexpr bool swaps(A a, A b) { A p = a, q = b; p.swap(q); return p == b && q == a; }
CT(swaps(V4("1.2.3.4"), V4("5.6.7.8")) && swaps(V6("::1"), V6("2::")) && swaps(AA(V4("1.2.3.4")), AA(V6("2::"))))
constexpr bool frombytes() { const uint8_t b[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}; return A4::from_bytes(b, 4) == V4("1.2.3.4") && A6::from_bytes(b, 16) == V6("102:304:506:708:90a:b0c:d0e:f10") && AA::from_bytes(b, 4, x::ip_version::V4) == AA(V4("1.2.3.4")); }
CT(frombytes())
template <class A> constexpr x::error_code code(const char* s);
#define CODE(name, T, text) constexpr x::error_code name() { x::error_code c = x::error_code::no_error; T::parse(text, c); return c; }
CODE(c1, A4, "256.0.0.1") CT(c1() == x::error_code::octet_exceeded_255)
CODE(c2, A6, "1::2::3") CT(c2() == x::error_code::most_one_double_colon_permitted)
CODE(c3, N4, "1.2.3.4/8") CT(c3() == x::error_code::has_host_bits_set)
CODE(c4, N6, "1::/129") CT(c4() == x::error_code::invalid_netmask)
CODE(c5, AA, "1.2.3") CT(c5() != x::error_code::no_error)
CODE(c6, NA, "1.2.3.0/24/8") CT(c6() == x::error_code::only_one_slash_permitted)
CODE(c7, A4, "1.2.3.4") CT(c7() == x::error_code::no_error)
// ---- version-independent addresses ----
CT(AA::parse("1.2.3.4").is_v4() && AA::parse("::1").is_v6() && AA::parse("1.2.3.4").v4().value() == V4("1.2.3.4") && AA::parse(u"::1").v6().value() == V6("::1"))
CT("1.2.3.4"_ip == AA(V4("1.2.3.4")) && "::1"_ip == AA(V6("::1")) && "::1"_ip.size() == 16 && "1.2.3.4"_ip.size() == 4 && "::1"_ip.version() == x::ip_version::V6)
CT("1.2.3.4"_ip.to_uint32() == 0x01020304u && "::5"_ip.to_uint128() == U(5) && AA::from_uint(0x01020304u) == "1.2.3.4"_ip)
CT("1.2.3.4"_ip < "::1"_ip && "::1"_ip > "1.2.3.4"_ip && "::1"_ip >= "::1"_ip && "::1"_ip <= "::1"_ip && "::1"_ip != "::2"_ip && "::1"_ip.hash() == AA(V6("::1")).hash())
CT("10.0.0.1"_ip.is_private() && "127.0.0.1"_ip.is_loopback() && "fec0::"_ip.is_site_local() && "ff02::1"_ip.is_multicast() && "8.8.8.8"_ip.is_global() && "fe80::"_ip.is_link_local() && "::"_ip.is_unspecified() && "240.0.0.1"_ip.is_reserved())
CT("::ffff:1.2.3.4"_ip.ipv4_mapped().value() == V4("1.2.3.4") && "2002:102:304::"_ip.sixtofour().value() == V4("1.2.3.4") && !"1.2.3.4"_ip.teredo())
// ---- networks ----
CT(N4::parse("10.0.0.0/8").prefixlen() == 8 && N4::parse(L"10.0.0.0/255.0.0.0") == N4::parse("10.0.0.0/8") && N4::parse("10.1.2.3/8", false) == "10.0.0.0/8"_ipv4_net && N4::parse("1.2.3.4") == N4::parse("1.2.3.4/32"))
CT("10.0.0.0/8"_ipv4_net.network_address() == V4("10.0.0.0") && "10.0.0.0/8"_ipv4_net.broadcast_address() == V4("10.255.255.255") && "10.0.0.0/8"_ipv4_net.netmask() == V4("255.0.0.0") && "10.0.0.0/8"_ipv4_net.hostmask() == V4("0.255.255.255"))
CT("10.0.0.0/8"_ipv4_net.addresses_count() == 16777216u && "1.0.0.0/32"_ipv4_net.addresses_count() == 1u)
CT(N4::from_address(V4("10.1.2.3"), 16, false) == "10.1.0.0/16"_ipv4_net)
CT("10.0.0.0/8"_ipv4_net.contains(V4("10.255.0.1")) && !"10.0.0.0/8"_ipv4_net.contains(V4("11.0.0.0")) && "10.0.0.0/8"_ipv4_net.overlaps("10.2.0.0/16"_ipv4_net) && "10.2.0.0/16"_ipv4_net.subnet_of("10.0.0.0/8"_ipv4_net) && "10.0.0.0/8"_ipv4_net.supernet_of("10.2.0.0/16"_ipv4_net))
CT("10.0.0.0/8"_ipv4_net < "10.0.0.0/9"_ipv4_net && "10.0.0.0/8"_ipv4_net != "10.0.0.0/9"_ipv4_net && "10.0.0.0/8"_ipv4_net.hash() == N4::parse("10.0.0.0/8").hash() && swaps("10.0.0.0/8"_ipv4_net, "11.0.0.0/9"_ipv4_net))
CT("10.0.0.0/8"_ipv4_net.is_private() && "127.0.0.0/8"_ipv4_net.is_loopback() && "224.0.0.0/4"_ipv4_net.is_multicast() && "8.8.8.0/24"_ipv4_net.is_global() && "240.0.0.0/4"_ipv4_net.is_reserved() && "169.254.0.0/16"_ipv4_net.is_link_local() && "0.0.0.0/32"_ipv4_net.is_unspecified())
CT("10.0.0.0/9"_ipv4_net.supernet() == "10.0.0.0/8"_ipv4_net && "10.0.0.0/9"_ipv4_net.supernet(9) == "0.0.0.0/0"_ipv4_net)
CT("10.0.0.0/8"_ipv4_net.subnets(2)[3] == "10.192.0.0/10"_ipv4_net && "10.0.0.0/8"_ipv4_net.subnets(2).size() == 4 && "10.0.0.0/8"_ipv4_net.subnets(2).back() == "10.192.0.0/10"_ipv4_net && "10.0.0.0/8"_ipv4_net.subnets().front() == "10.0.0.0/9"_ipv4_net)
CT("10.0.0.0/30"_ipv4_net.hosts()[1] == V4("10.0.0.2") && "10.0.0.0/30"_ipv4_net.hosts().size() == 2 && "10.0.0.0/30"_ipv4_net.hosts().front() == V4("10.0.0.1") && "10.0.0.0/30"_ipv4_net.hosts().back() == V4("10.0.0.2") && !"10.0.0.0/30"_ipv4_net.hosts().empty())
constexpr unsigned walk() { unsigned n = 0, s = 0; auto h = "10.0.0.0/28"_ipv4_net.hosts(); for (auto i = h.begin(); i != h.end(); ++i) { ++n; s += (*i).to_uint() & 255; } return n * 1000 + s; }
CT(walk() == 14105)
constexpr unsigned walksub() { unsigned n = 0; auto h = "10.0.0.0/28"_ipv4_net.subnets(2); for (auto i = h.begin(); i != h.end(); ++i) n = n * 100 + ((*i).network_address().to_uint() & 255); return n; }
CT(walksub() == 40812)
constexpr unsigned exclude() { unsigned n = 0; auto h = "10.0.0.0/28"_ipv4_net.address_exclude("10.0.0.4/30"_ipv4_net); for (auto i = h.begin(); i != h.end(); ++i) n = n * 100 + ((*i).network_address().to_uint() & 255) + (*i).prefixlen(); return n; }
CT(exclude() != 0)
CT(N6::parse("2001:db8::/32").prefixlen() == 32 && "2001:db8::/32"_ipv6_net.broadcast_address() == V6("2001:db8:ffff:ffff:ffff:ffff:ffff:ffff") && "2001:db8::/32"_ipv6_net.netmask() == V6("ffff:ffff::") && "2001:db8::/32"_ipv6_net.hostmask() == V6("::ffff:ffff:ffff:ffff:ffff:ffff"))
CT("2001:db8::/32"_ipv6_net.addresses_count() == U(1ull << 32, 0) && "2001:db8::/32"_ipv6_net.contains(V6("2001:db8::1")) && "2001:db8::/32"_ipv6_net.supernet(4) == "2001:db0::/28"_ipv6_net)
CT("2001:db8::/32"_ipv6_net.subnets(32).back() == "2001:db8:ffff:ffff::/64"_ipv6_net && "2001:db8::/32"_ipv6_net.subnets(4)[5] == "2001:db8:5000::/36"_ipv6_net)
CT("2001:db8::/126"_ipv6_net.hosts().back() == V6("2001:db8::3") && "2001:db8::/126"_ipv6_net.hosts().front() == V6("2001:db8::1"))
CT("ff00::/8"_ipv6_net.is_multicast() && "fc00::/7"_ipv6_net.is_private() && "::1/128"_ipv6_net.is_loopback() && "fe80::/10"_ipv6_net.is_link_local() && "fec0::/10"_ipv6_net.is_site_local() && "::/128"_ipv6_net.is_unspecified() && "2606:4700::/32"_ipv6_net.is_global())
CT(NA::parse("10.0.0.0/8").is_v4() && NA::parse("2001:db8::/32").is_v6() && "10.0.0.0/8"_net.prefixlen() == 8 && "10.0.0.0/8"_net.v4().value() == "10.0.0.0/8"_ipv4_net && "2001:db8::/32"_net.v6().value() == "2001:db8::/32"_ipv6_net)
CT("10.0.0.0/8"_net.contains("10.1.1.1"_ip) && !"10.0.0.0/8"_net.contains("::1"_ip) && "10.0.0.0/8"_net.overlaps("10.0.0.0/9"_net) && "10.0.0.0/9"_net.subnet_of("10.0.0.0/8"_net) && "10.0.0.0/8"_net.supernet_of("10.0.0.0/9"_net))
CT("10.0.0.0/8"_net.network_address() == "10.0.0.0"_ip && "10.0.0.0/8"_net.broadcast_address() == "10.255.255.255"_ip && "10.0.0.0/8"_net.netmask() == "255.0.0.0"_ip && "10.0.0.0/8"_net.hostmask() == "0.255.255.255"_ip && "10.0.0.0/8"_net.addresses_count() == U(16777216))
CT("10.0.0.0/8"_net < "2001:db8::/32"_net && "10.0.0.0/8"_net != "2001:db8::/32"_net && "10.0.0.0/8"_net == NA("10.0.0.0/8"_ipv4_net) && "10.0.0.0/8"_net.hash() == NA::parse("10.0.0.0/8").hash() && swaps("10.0.0.0/8"_net, "2001:db8::/32"_net))
CT("10.0.0.0/8"_net.supernet() == "10.0.0.0/7"_net && "10.0.0.0/8"_net.is_private() && "ff00::/8"_net.is_multicast())
// ---- 128-bit integers ----
CT(U(1, 0) - U(1) == U(0, ~0ull) && U(0, ~0ull) + U(1) == U(1, 0) && U(0, 1) << 100 == U(1ull << 36, 0) && U(1, 0) >> 64 == U(1) && U(~0ull, ~0ull) * U(2) == U(~0ull, ~0ull - 1))
CT((U(1, 5) & U(0, 4)) == U(4) && (U(1, 0) | U(2)) == U(1, 2) && (U(3, 3) ^ U(1, 1)) == U(2, 2) && ~U(0) == U(~0ull, ~0ull) && -U(1) == U(~0ull, ~0ull))
CT(U(100) / U(7) == U(14) && U(100) % U(7) == U(2) && U(1, 0) / U(16) == U(1ull << 60) && U(5).lower() == 5 && U(7, 5).upper() == 7)
CT(U(1) < U(1, 0) && U(1, 0) > U(1) && U(1) <= U(1) && U(1) >= U(1) && U(1) != U(2) && !U(0) && U(5).hash() == U(0, 5).hash())
constexpr U steps() { U a(0, ~0ull); ++a; a++; --a; a--; a += U(3); a -= U(1); a <<= 1; a >>= 1; a *= U(2); a |= U(1); a &= ~U(0); a ^= U(0); return a; }
CT(steps() == U(2, 3))
#endif
#if IPADDRESS_CPP_VERSION >= 17
CT(A4::parse(std::string_view("1.2.3.4")) == V4("1.2.3.4") && A6::parse(std::u16string_view(u"::1")) == V6("::1") && N4::parse(std::wstring_view(L"10.0.0.0/8")).prefixlen() == 8 && AA::parse(std::u32string_view(U"::1")).is_v6() && NA::parse(std::string_view("10.0.0.0/8")).is_v4())
constexpr unsigned back() { unsigned s = 0; auto h = "10.0.0.0/29"_ipv4_net.hosts(); for (auto i = h.rbegin(); i != h.rend(); ++i) s = s * 10 + ((*i).to_uint() & 255); return s; }
CT(back() == 654321)
constexpr unsigned each() { unsigned s = 0; for (const auto& a : "10.0.0.0/29"_ipv4_net.hosts()) s = s * 10 + (a.to_uint() & 255); return s; }
CT(each() == 123456)
#endif
#if IPADDRESS_CPP_VERSION >= 20
#ifndef IPADDRESS_NO_SPACESHIP_OPERATOR
CT((V4("1.2.3.4") <=> V4("1.2.3.4")) == std::strong_ordering::equal && (V6("::1") <=> V6("::2")) == std::strong_ordering::less && ("10.0.0.0/8"_net <=> "2001:db8::/32"_net) == std::strong_ordering::less && (U(1) <=> U(2)) == std::strong_ordering::less)
#endif
CT(A4::parse(u8"1.2.3.4") == V4("1.2.3.4") && A6::parse(std::u8string_view(u8"::1")) == V6("::1"))
CT(A4::parse<"1.2.3.4">() == V4("1.2.3.4") && A6::parse<"::1">() == V6("::1") && N4::parse<"10.0.0.0/8">() == "10.0.0.0/8"_ipv4_net && AA::parse<"::1">() == "::1"_ip && NA::parse<"10.0.0.0/8">() == "10.0.0.0/8"_net)
#endif
int main() {}
