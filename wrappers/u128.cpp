#include "common.h"
#include <utility>
typedef ipx::uint128_t U;
static int is(const U& r, u64 h, u64 l) {
    REQUIRE(r.lower() == l);
    REQUIRE(r.upper() == h);
    return 0;
}
#define TRY(e) do { int r_ = (e); if (r_) return r_; } while (0)
// carry: carry out of the low half, fixed by the cell
ENTRY int c23_add(u64 ah, u64 al, u64 bh, u64 bl, u64 carry, int how) {
    const U a(ah, al), b(bh, bl);
    U x = a;
    if (how == 0) return is(a + b, ah + bh + carry, al + bl);
    if (how == 1) { U& r = (x += b); REQUIRE(&r == &x); return is(x, ah + bh + carry, al + bl); }
    if (how == 2) { TRY(is(al + U(bh, bl), bh + carry, al + bl)); }
    if (how == 3) { TRY(is(U(ah, al) + bl, ah + carry, al + bl)); }
    return 0;
}
ENTRY int c23_sub(u64 ah, u64 al, u64 bh, u64 bl, u64 borrow, int how) {
    const U a(ah, al), b(bh, bl);
    U x = a;
    if (how == 0) return is(a - b, ah - bh - borrow, al - bl);
    if (how == 1) { U& r = (x -= b); REQUIRE(&r == &x); return is(x, ah - bh - borrow, al - bl); }
    if (how == 2) { TRY(is(al - U(bh, bl), 0 - bh - borrow, al - bl)); }
    if (how == 3) { TRY(is(U(ah, al) - bl, ah - borrow, al - bl)); }
    return 0;
}
ENTRY int c23_inc(u64 h, u64 l, u64 carry, int how) {
    const U a(h, l);
    U x = a;
    if (how == 0) { U& r = ++x; REQUIRE(&r == &x); return is(x, h + carry, l + 1); }
    TRY(is(x++, h, l));
    return is(x, h + carry, l + 1);
}
ENTRY int c23_dec(u64 h, u64 l, u64 borrow, int how) {
    const U a(h, l);
    U x = a;
    if (how == 0) { U& r = --x; REQUIRE(&r == &x); return is(x, h - borrow, l - 1); }
    TRY(is(x--, h, l));
    return is(x, h - borrow, l - 1);
}
// borrow: l is not zero
ENTRY int c23_neg(u64 h, u64 l, u64 borrow) {
    const U a(h, l);
    TRY(is(-a, ~h + (1 - borrow), 0 - l));
    return is(+a, h, l);
}
ENTRY int c23_bits(u64 ah, u64 al, u64 bh, u64 bl, int how) {
    const U a(ah, al), b(bh, bl);
    U x = a;
    switch (how) {
    case 0: TRY(is(a & b, ah & bh, al & bl)); TRY(is(a | b, ah | bh, al | bl)); TRY(is(a ^ b, ah ^ bh, al ^ bl)); TRY(is(~a, ~ah, ~al)); break;
    case 1: TRY(is(x &= b, ah & bh, al & bl)); TRY(is(x, ah & bh, al & bl)); break;
    case 2: TRY(is(x |= b, ah | bh, al | bl)); TRY(is(x, ah | bh, al | bl)); break;
    case 3: TRY(is(x ^= b, ah ^ bh, al ^ bl)); TRY(is(x, ah ^ bh, al ^ bl)); break;
    case 4: TRY(is(al & b, 0, al & bl)); TRY(is(al | b, bh, al | bl)); TRY(is(al ^ b, bh, al ^ bl)); break;
    case 5: { U p(ah, al), q(bh, bl); p.swap(q); TRY(is(p, bh, bl)); TRY(is(q, ah, al)); using std::swap; swap(p, q); TRY(is(p, ah, al)); TRY(is(q, bh, bl)); } break;
    case 6: TRY(is(a, ah, al)); TRY(is(x, ah, al)); { U y; y = b; TRY(is(y, bh, bl)); } TRY(is(U(), 0, 0)); break;
    default: break;
    }
    return 0;
}
template <class T> static int shifts(u64 h, u64 l, int n, int how) {
    const U a(h, l);
    const T s = (T)n;
    u64 lh, ll, rh, rl;
    if (n == 0) { lh = h; ll = l; rh = h; rl = l; }
    else if (n < 64) { lh = (h << n) | (l >> (64 - n)); ll = l << n; rh = h >> n; rl = (l >> n) | (h << (64 - n)); }
    else if (n == 64) { lh = l; ll = 0; rh = 0; rl = h; }
    else { lh = l << (n - 64); ll = 0; rh = 0; rl = h >> (n - 64); }
    U x = a;
    switch (how) {
    case 0: TRY(is(a << s, lh, ll)); break;
    case 1: TRY(is(a >> s, rh, rl)); break;
    case 2: { U& r = (x <<= s); REQUIRE(&r == &x); TRY(is(x, lh, ll)); } break;
    default: { U& r = (x >>= s); REQUIRE(&r == &x); TRY(is(x, rh, rl)); } break;
    }
    return 0;
}
ENTRY int c23_shift(u64 h, u64 l, int n, int how, int type) {
    switch (type) {
    case 0: return shifts<int>(h, l, n, how);
    case 1: return shifts<unsigned>(h, l, n, how);
    case 2: return shifts<size_t>(h, l, n, how);
    case 3: return shifts<unsigned char>(h, l, n, how);
    case 4: return shifts<signed char>(h, l, n, how);
    case 5: return shifts<long long>(h, l, n, how);
    default: return shifts<short>(h, l, n, how);
    }
}
// sign of the comparison, fixed by the cell
template <class P, class Q> static int cmps(const P& x, const Q& y, int c, int which) {
    switch (which) {
    case 0: REQUIRE((x == y) == (c == 0)); break;
    case 1: REQUIRE((x != y) == (c != 0)); break;
    case 2: REQUIRE((x < y) == (c < 0)); break;
    case 3: REQUIRE((x > y) == (c > 0)); break;
    case 4: REQUIRE((x <= y) == (c <= 0)); break;
    case 5: REQUIRE((x >= y) == (c >= 0)); break;
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    case 6: { const auto w = x <=> y; REQUIRE((w < 0) == (c < 0)); REQUIRE((w > 0) == (c > 0)); REQUIRE((w == 0) == (c == 0)); } break;
#endif
    default: break;
    }
    return 0;
}
ENTRY int c23_cmp(u64 ah, u64 al, u64 bh, u64 bl, int c, int w) { return cmps(U(ah, al), U(bh, bl), c, w); }
ENTRY int c23_cmpr(u64 ah, u64 al, u64 bl, int c, int w) { return cmps(U(ah, al), bl, c, w); }
ENTRY int c23_cmpl(u64 al, u64 bh, u64 bl, int c, int w) { return cmps(al, U(bh, bl), c, w); }
ENTRY int c23_truth(u64 h, u64 l, int zero) {
    const U a(h, l);
    REQUIRE((bool)a == !zero); REQUIRE(!a == (zero != 0));
    REQUIRE((a && U(1)) == !zero); REQUIRE((a || U(0)) == !zero); REQUIRE(!(a && U(0))); REQUIRE(a || U(1));
    return 0;
}
ENTRY int c23_to(u64 h, u64 l) {
    const U a(h, l);
    REQUIRE((unsigned long long)a == l); REQUIRE((unsigned long)a == l);
    REQUIRE((u64)(long long)a == l); REQUIRE((u64)(long)a == l);
    REQUIRE((unsigned)a == (unsigned)l); REQUIRE((unsigned)(int)a == (unsigned)l);
    REQUIRE((unsigned short)a == (unsigned short)l); REQUIRE((unsigned short)(short)a == (unsigned short)l);
    REQUIRE((unsigned char)a == (unsigned char)l); REQUIRE((unsigned char)(char)a == (unsigned char)l); REQUIRE((unsigned char)(signed char)a == (unsigned char)l);
    return 0;
}
ENTRY int c23_fromu(u64 v) {
    TRY(is(U((unsigned long long)v), 0, v)); TRY(is(U((unsigned long)v), 0, v));
    TRY(is(U((unsigned)v), 0, (unsigned)v)); TRY(is(U((unsigned short)v), 0, (unsigned short)v));
    { U x; x = (unsigned)v; TRY(is(x, 0, (unsigned)v)); }
    return 0;
}
// neg: the 64-, 32- and 16-bit values are negative (fixed by the cell)
ENTRY int c23_froms(u64 v, int neg) {
    const u64 h = neg ? ~(u64)0 : 0;
    TRY(is(U((long long)v), h, v)); TRY(is(U((long)v), h, v));
    TRY(is(U((int)v), h, (u64)(long long)(int)v)); TRY(is(U((short)v), h, (u64)(long long)(short)v));
    return 0;
}
// multiplication and division by constants (one operand byte unknown)
ENTRY int c23_mul(u64 ah, u64 al, u64 bh, u64 bl, int how) {
    const unsigned __int128 p = ((unsigned __int128)ah << 64 | al) * ((unsigned __int128)bh << 64 | bl);
    U x(ah, al);
    if (how == 0) return is(x * U(bh, bl), (u64)(p >> 64), (u64)p);
    x *= U(bh, bl);
    return is(x, (u64)(p >> 64), (u64)p);
}
