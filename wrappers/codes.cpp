// Code-reporting calls against a stale code, and against their throwing twins.
#include "common.h"
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace spec;
typedef ipx::ipv4_address A4; typedef ipx::ipv6_address A6; typedef ipx::ip_address AA;
typedef ipx::ipv4_network N4; typedef ipx::ipv6_network N6; typedef ipx::ip_network NA;
typedef ipx::error_code EC;
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
#if __cplusplus >= 201703L
#define VIEW(C, t, n) std::basic_string_view<C>(t, n)
#else
#define VIEW(C, t, n) std::basic_string<C>(t, n)
#endif
static bool known(EC c) { return (int)c >= 0 && (int)c <= (int)EC::wrong_encoding_sequence; }
static bool in_parse(EC c) { return (int)c < (int)EC::invalid_version || (int)c > (int)EC::not_contained_network; }
static bool eq(const A4& a, const A4& b) { return same(a, b.data()); }
static bool eq(const A6& a, const A6& b) { return same(a, b.data()) && a.get_scope_id() == b.get_scope_id(); }
static bool eq(const AA& a, const AA& b) { return a.version() == b.version() && eqb(a.data(), b.data(), a.size()) && a.get_scope_id() == b.get_scope_id(); }
template <class A> static bool eq(const ipx::ip_network_base<A>& a, const ipx::ip_network_base<A>& b) { return a.prefixlen() == b.prefixlen() && eq(a.network_address(), b.network_address()) && eq(a.netmask(), b.netmask()); }
static bool eq(const NA& a, const NA& b) { return a.version() == b.version() && a.prefixlen() == b.prefixlen() && eq(a.network_address(), b.network_address()) && eq(a.netmask(), b.netmask()); }
// sequences: same ends
template <class S> static bool eqs(const S& a, const S& b) { return a.begin() == b.begin() && a.end() == b.end(); }
template <class T> static bool eq(const ipx::subnets_sequence<T>& a, const ipx::subnets_sequence<T>& b) { return eqs(a, b) && a.empty() == b.empty(); }
template <class T> static bool eq(const ipx::exclude_network_sequence<T>& a, const ipx::exclude_network_sequence<T>& b) { return eqs(a, b) && a.empty() == b.empty(); }
template <class T> static bool eq(const ipx::subnets_any_sequence<T>& a, const ipx::subnets_any_sequence<T>& b) { return eqs(a, b) && a.empty() == b.empty(); }
template <class T> static bool neutral(const T& r) { return eq(r, T()); }
static bool neutral(const NA& r) { return eq(r, NA()) || eq(r, NA(N6())); }
template <class T> static bool neutral(const ipx::subnets_sequence<T>& r) { return r.empty() && r.begin() == r.end(); }
template <class T> static bool neutral(const ipx::exclude_network_sequence<T>& r) { return r.empty() && r.begin() == r.end(); }
template <class T> static bool neutral(const ipx::subnets_any_sequence<T>& r) { return r.empty() && r.begin() == r.end(); }
// F: r = f(code); G: r = g() throwing.  what: 0 a code is stored; 1 whatever was there before; 2 neutral on failure; 3 the throwing twin
template <class F, class G> static int twin(const F& f, const G& g, EC s1, EC s2, int what) {
    EC c = s1;
    auto r = f(c);
    REQUIRE(known(c));
    if (what == 1) {
        EC d = s2;
        auto q = f(d);
        REQUIRE(d == c);
        REQUIRE(eq(q, r));
    }
    if (what == 2 && c != NOERR) REQUIRE(neutral(r));
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (what == 3) {
        bool thrown = true;
        EC x = NOERR;
        bool pe = false;
        try {
            auto q = g();
            thrown = false;
            REQUIRE(c == NOERR);
            REQUIRE(eq(q, r));
        } catch (const ipx::parse_error& e) { x = e.code(); pe = true; }
        catch (const ipx::logic_error& e) { x = e.code(); }
        if (thrown) { REQUIRE(c != NOERR); REQUIRE(x == c); REQUIRE(pe == in_parse(c)); }
    }
#else
    (void)g;
#endif
    return 0;
}
template <class R> struct from { // addresses
    template <class X> static int text(const X& x, int, EC a, EC b, int what) { return twin([&](EC& c) { return R::parse(x, c); }, [&]() { return R::parse(x); }, a, b, what); }
};
template <class R> struct nfrom {
    template <class X> static int text(const X& x, int strict, EC a, EC b, int what) {
        if (strict == 2) return twin([&](EC& c) { return R::parse(x, c); }, [&]() { return R::parse(x); }, a, b, what);
        return twin([&](EC& c) { return R::parse(x, c, strict != 0); }, [&]() { return R::parse(x, strict != 0); }, a, b, what);
    }
};
template <> struct from<N4> : nfrom<N4> {}; template <> struct from<N6> : nfrom<N6> {}; template <> struct from<NA> : nfrom<NA> {};
template <class R, class C> static int parse(const C* t, size_t n, int how, int strict, u32 s1, u32 s2, int what) {
    const EC a = (EC)s1, b = (EC)s2;
    switch (how) {
    case 0: return from<R>::text(VIEW(C, t, n), strict, a, b, what);
    case 1: return from<R>::text(std::basic_string<C>(t, n), strict, a, b, what);
    case 2: return from<R>::text(*reinterpret_cast<const C(*)[24]>(t), strict, a, b, what);
    default: return from<R>::text(*reinterpret_cast<const C(*)[72]>(t), strict, a, b, what);
    }
}
template <class C> static int setscope(const C* t, size_t n, int how, int any, u32 s1, u32 s2, int what) {
    auto run = [&](EC& c) -> A6 {
        A6 a; AA x = A6();
        if (any) {
            if (how == 0) x.set_scope_id(VIEW(C, t, n), c); else x.set_scope_id(std::basic_string<C>(t, n), c);
            return x.v6().value();
        }
        switch (how) {
        case 0: a.set_scope_id(VIEW(C, t, n), c); break;
        case 1: a.set_scope_id(std::basic_string<C>(t, n), c); break;
        default: a.set_scope_id(*reinterpret_cast<const C(*)[16]>(t), c); break;
        }
        return a;
    };
    auto thr = [&]() -> A6 {
        A6 a; AA x = A6();
        if (any) {
            if (how == 0) x.set_scope_id(VIEW(C, t, n)); else x.set_scope_id(std::basic_string<C>(t, n));
            return x.v6().value();
        }
        switch (how) {
        case 0: a.set_scope_id(VIEW(C, t, n)); break;
        case 1: a.set_scope_id(std::basic_string<C>(t, n)); break;
        default: a.set_scope_id(*reinterpret_cast<const C(*)[16]>(t)); break;
        }
        return a;
    };
    return twin(run, thr, (EC)s1, (EC)s2, what);
}
#define ALL(X, C) \
ENTRY int code_scope_##X(const C* t, size_t n, int how, int any, u32 a, u32 b, int w) { return setscope<C>(t, n, how, any, a, b, w); } \
ENTRY int code_a4_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<A4, C>(t, n, how, s, a, b, w); } \
ENTRY int code_a6_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<A6, C>(t, n, how, s, a, b, w); } \
ENTRY int code_aa_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<AA, C>(t, n, how, s, a, b, w); } \
ENTRY int code_n4_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<N4, C>(t, n, how, s, a, b, w); } \
ENTRY int code_n6_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<N6, C>(t, n, how, s, a, b, w); } \
ENTRY int code_na_##X(const C* t, size_t n, int how, int s, u32 a, u32 b, int w) { return parse<NA, C>(t, n, how, s, a, b, w); }
ALL(c, char)
ALL(w, wchar_t)
ALL(c16, char16_t)
ALL(c32, char32_t)
#if __cplusplus >= 202002L
ALL(c8, char8_t)
#endif
// ---- networks
template <class A> static A make(const u8* p, int v6);
template <> A4 make<A4>(const u8* p, int) { return addr<A4>(p); }
template <> A6 make<A6>(const u8* p, int) { return addr<A6>(p); }
template <> AA make<AA>(const u8* p, int v6) { return v6 ? AA(addr<A6>(p)) : AA(addr<A4>(p)); }
template <class A> struct nets;
template <> struct nets<A4> { typedef N4 type; }; template <> struct nets<A6> { typedef N6 type; }; template <> struct nets<AA> { typedef NA type; };
template <class A> static int build(const u8* p, int v6, size_t len, int strict, u32 a, u32 b, int w) {
    typedef typename nets<A>::type N;
    const A x = make<A>(p, v6);
    return twin([&](EC& c) { return strict == 2 ? N::from_address(x, c, len) : N::from_address(x, c, len, strict != 0); },
                [&]() { return strict == 2 ? N::from_address(x, len) : N::from_address(x, len, strict != 0); }, (EC)a, (EC)b, w);
}
template <class A> static typename nets<A>::type net(const u8* p, int v6, size_t len) { EC c = NOERR; return nets<A>::type::from_address(make<A>(p, v6), c, len, false); }
template <class A> static int super_(const u8* p, int v6, size_t len, size_t d, size_t q, int has, u32 a, u32 b, int w) {
    const auto n = net<A>(p, v6, len);
    return twin([&](EC& c) { return has ? n.supernet(c, d, q) : n.supernet(c, d); }, [&]() { return has ? n.supernet(d, q) : n.supernet(d); }, (EC)a, (EC)b, w);
}
template <class A> static int subs(const u8* p, int v6, size_t len, size_t d, size_t q, int has, u32 a, u32 b, int w) {
    const auto n = net<A>(p, v6, len);
    return twin([&](EC& c) { return has ? n.subnets(c, d, q) : n.subnets(c, d); }, [&]() { return has ? n.subnets(d, q) : n.subnets(d); }, (EC)a, (EC)b, w);
}
template <class A> static int excl(const u8* p, const u8* q, int v6, int u6, size_t len, size_t m, u32 a, u32 b, int w) {
    const auto n = net<A>(p, v6, len); const auto o = net<A>(q, u6, m);
    return twin([&](EC& c) { return n.address_exclude(o, c); }, [&]() { return n.address_exclude(o); }, (EC)a, (EC)b, w);
}
#define NETS(X, A) \
ENTRY int code_from_##X(const u8* p, int v, size_t l, int s, u32 a, u32 b, int w) { return build<A>(p, v, l, s, a, b, w); } \
ENTRY int code_super_##X(const u8* p, int v, size_t l, size_t d, size_t q, int h, u32 a, u32 b, int w) { return super_<A>(p, v, l, d, q, h, a, b, w); } \
ENTRY int code_subs_##X(const u8* p, int v, size_t l, size_t d, size_t q, int h, u32 a, u32 b, int w) { return subs<A>(p, v, l, d, q, h, a, b, w); } \
ENTRY int code_excl_##X(const u8* p, const u8* o, int v, int u, size_t l, size_t m, u32 a, u32 b, int w) { return excl<A>(p, o, v, u, l, m, a, b, w); }
NETS(4, A4)
NETS(6, A6)
NETS(a, AA)
