// every member of every class, and the free function templates, instantiated: input of the effect analyses
#include "common.h"
#include <sstream>
#include <string>
#include <functional>
namespace IPADDRESS_NAMESPACE {
template class ip_address_base<ipv4_address_base>;
template class ip_address_base<ipv6_address_base>;
template class ip_network_base<ipv4_network_base>;
template class ip_network_base<ipv6_network_base>;
template class ip_address_iterator<ipv4_address>;
template class ip_address_iterator<ipv6_address>;
template class ip_reverse_iterator<ip_address_iterator<ipv4_address>>;
template class ip_reverse_iterator<ip_address_iterator<ipv6_address>>;
template class ip_reverse_iterator<ip_network_iterator<ipv4_network>>;
template class ip_reverse_iterator<ip_network_iterator<ipv6_network>>;
template class hosts_sequence<ipv4_address>;
template class hosts_sequence<ipv6_address>;
template class ip_network_iterator<ipv4_network>;
template class ip_network_iterator<ipv6_network>;
template class ip_exclude_network_iterator<ipv4_network>;
template class ip_exclude_network_iterator<ipv6_network>;
template class subnets_sequence<ipv4_network>;
template class subnets_sequence<ipv6_network>;
template class exclude_network_sequence<ipv4_network>;
template class exclude_network_sequence<ipv6_network>;
template class subnets_any_sequence<ip_network>;
template class ip_any_iterator<ip_address, ip_address_iterator<ipv4_address>, ip_address_iterator<ipv6_address>>;
template class ip_any_iterator<ip_network, ip_network_iterator<ipv4_network>, ip_network_iterator<ipv6_network>>;
template class ip_reverse_iterator<ip_any_iterator<ip_address, ip_address_iterator<ipv4_address>, ip_address_iterator<ipv6_address>>>;
template class ip_reverse_iterator<ip_any_iterator<ip_network, ip_network_iterator<ipv4_network>, ip_network_iterator<ipv6_network>>>;
template struct byte_array<4>;
template struct byte_array<16>;
template struct fixed_string<4>;
template struct fixed_string<16>;
template class optional<ipv4_address>;
template class optional<ipv6_address>;
}
namespace x = IPADDRESS_NAMESPACE;
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <class C, class T> static void stream(std::basic_ostream<C>& o, std::basic_istream<C>& i, T& t) {
    o << t;
    i >> t;
}
template <class T> static void streams(T& t, std::stringstream& a, std::wstringstream& b) {
    stream<char>(a, a, t);
    stream<wchar_t>(b, b, t);
}
ENTRY void all_streams(std::stringstream& a, std::wstringstream& b, x::ipv4_address& a4, x::ipv6_address& a6, x::ip_address& aa, x::ipv4_network& n4, x::ipv6_network& n6, x::ip_network& na, x::uint128_t& u) {
    streams(a4, a, b); streams(a6, a, b); streams(aa, a, b); streams(n4, a, b); streams(n6, a, b); streams(na, a, b); streams(u, a, b);
    a << x::full << x::compact << x::compressed << a4;
    a >> x::strict >> n4 >> x::non_strict >> n6;
}
#endif
#ifdef IPADDRESS_NO_OVERLOAD_STD
template <class T> static size_t std_(T& a, T& b) { a.swap(b); return a.hash(); }
#else
template <class T> static size_t std_(T& a, T& b) { using std::swap; swap(a, b); return std::hash<T>()(a); }
#endif
ENTRY size_t all_std(x::ipv4_address& a4, x::ipv6_address& a6, x::ip_address& aa, x::ipv4_network& n4, x::ipv6_network& n6, x::ip_network& na, x::uint128_t& u) {
    return std_(a4, a4) + std_(a6, a6) + std_(aa, aa) + std_(n4, n4) + std_(n6, n6) + std_(na, na) + std_(u, u);
}
