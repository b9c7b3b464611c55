import itertools
from bitflow import engine as E
from bitflow.driver import Cell, default_judge
from props.c16 import bits_to_bytes, bit
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (memory, shift, arithmetic, assertion and indeterminate-value obligations; states joined at merge points)'
NOTE = ('Every public query, conversion, comparison, format, hash, swap and network operation on addresses of completely unknown bytes (text output: one cell per width pattern of the octets or groups), with unknown scopes of several lengths; networks of every prefix length and of invalid and huge ones; '
        'supernet/subnets with huge and small differences; hosts iterators moved by a completely unknown distance, subnets iterators by fixed distances inside the sequence; address_exclude for prefix differences up to 10; objects without a value; 128-bit integer operations on unknown values (division by an unknown value is outside). '
        'States are joined at merge points, so each cell is an over-approximation; the set of cells is not a complete partition of the argument space, hence "other". In cells other than the text cells ip_to_chars is replaced by its summary (any text up to its maximal length), itself analysed by the text cells.')
RULE = 'Entry: construct objects from unknown bytes, apply the operation, branch on every byte of the result; no path may have an out-of-bounds or indeterminate read, an undefined operation, a failed assertion or std::terminate.'
ASSUME = ['operator new does not fail', 'the library functions of std::basic_string are those of the installed headers']
A = frozenset
ANY = A(range(1, 128)) - {37}
HUGE = [1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def judge(o):
    if o.kind == E.RET:
        return 'ok', ''
    return default_judge(o)


OCTET = {1: A(range(10)), 2: A(range(10, 100)), 3: A(range(100, 256))}
GROUP = {0: (A([0]), A([0])), 1: (A([0]), A(range(1, 16))), 2: (A([0]), A(range(16, 256))), 3: (A(range(1, 16)), A(range(256))), 4: (A(range(16, 256)), A(range(256)))}


def object_(ctx, name, x, z, shape=None):
    """bytes of an address of family x ('4', '6', 'a' with bit 8 of z: version 4), then the scope's characters;
    the widths of the octets or groups where the operation writes text"""
    v4 = x == '4' or z & 256
    if shape:
        doms = [OCTET[w] for w in shape] if v4 else [d for w in shape for d in GROUP[w]]
        vals = [ctx.var('%s%d' % (name, i), d) for i, d in enumerate(doms)]
    else:
        vals = ctx.bytes(name, 4 if v4 else 16)
    if v4:
        return ctx.buf(vals + [ctx.const(8, 0)] * 12, name)
    vals += [ctx.var('%s.z%d' % (name, i), ANY) for i in range(z & 255)]
    return ctx.buf(vals, name)


def W(ctx, v):
    return ctx.const(64, v)


def one(ctx, x, z, what, fmt, shape=None):
    return 'ops_one_' + x, [object_(ctx, 'a', x, z, shape), W(ctx, z), ctx.const(32, what), ctx.const(32, fmt)], judge


def two(ctx, x, z, y, what):
    return 'ops_two_' + x, [object_(ctx, 'a', x, z), object_(ctx, 'b', x, y), W(ctx, z), W(ctx, y), ctx.const(32, what)], judge


def net1(ctx, x, z, p, what, fmt, shape=None):
    return 'ops_net1_' + x, [object_(ctx, 'a', x, z, shape), W(ctx, z), W(ctx, p), ctx.const(32, what), ctx.const(32, fmt)], judge


def net2(ctx, x, z, y, p, q, what):
    return 'ops_net2_' + x, [object_(ctx, 'a', x, z), object_(ctx, 'b', x, y), W(ctx, z), W(ctx, y), W(ctx, p), W(ctx, q), ctx.const(32, what)], judge


def netlike(ctx, x, z, p):
    """network bits unknown but for the last two; host bits zero; a fixed scope"""
    v4 = x == '4' or z & 256
    w = 32 if v4 else 128
    bits = [E.const(1, k & 1) if k > p - 3 else bit(ctx, 'a', k) for k in range(p)] + [E.const(1, 0)] * (w - p)
    return ctx.buf(bits_to_bytes(bits) + ([ctx.const(8, 0)] * 12 if v4 else [ctx.const(8, 101 + i) for i in range(z & 255)]), 'a')


def regroup(ctx, x, z, p, d, q, has, what):
    return 'ops_regroup_' + x, [object_(ctx, 'a', x, z) if what == 0 else netlike(ctx, x, z, p), W(ctx, z), W(ctx, p), W(ctx, d), W(ctx, q), ctx.const(32, has), ctx.const(32, what)], judge


def word(ctx, n):
    """a 64-bit distance: a number, or completely unknown"""
    return E.concat([ctx.var('n%d' % i) for i in range(8)]) if n is None else W(ctx, n % (1 << 64))


def hosts(ctx, x, z, p, n, what):
    return 'ops_hosts_' + x, [object_(ctx, 'a', x, z), W(ctx, z), W(ctx, p), word(ctx, n), ctx.const(32, what)], judge


def subnets(ctx, x, z, p, d, n, what):
    return 'ops_subnets_' + x, [netlike(ctx, x, z, p), W(ctx, z), W(ctx, p), W(ctx, d), word(ctx, n), ctx.const(32, what)], judge


def exclude(ctx, x, z, p, q, tail):
    """b: the network bits of a, then one fixed way further down (q >= p), or the other way round"""
    v4 = x == '4' or z & 256
    w = 32 if v4 else 128
    lo, hi = min(p, q), max(p, q)
    common = [E.const(1, 0) if i == lo - 1 else bit(ctx, 'a', i) for i in range(lo)]
    way = [E.const(1, 1 if tail == 1 or tail == 2 and k % 2 else 0) for k in range(hi - lo)]
    short = bits_to_bytes(common + [E.const(1, 0)] * (w - lo))
    long_ = bits_to_bytes(common + way + [E.const(1, 0)] * (w - hi))
    scope = lambda n: [ctx.const(8, 0)] * 12 if v4 else [ctx.const(8, 101 + i) for i in range(z & 255)]
    a, b = (short, long_) if p <= q else (long_, short)
    return 'ops_exclude_' + x, [ctx.buf(a + scope('a'), 'a'), ctx.buf(b + scope('b'), 'b'), W(ctx, z), W(ctx, p), W(ctx, q)], judge


def blank(ctx, what):
    return 'ops_blank', [ctx.const(32, what)], judge


def u128(ctx, sh, what):
    return 'ops_u128', [E.concat([ctx.var('%s%d' % (n, i)) for i in range(8)]) for n in 'hlgk'] + [W(ctx, sh), ctx.const(32, what)], judge


def shapes(v4, many):
    """widths of the octets; zero runs and widths of the groups"""
    if v4:
        return [w for w in itertools.product((1, 2, 3), repeat=4) if many or w in ((1, 1, 1, 1), (3, 3, 3, 3), (1, 2, 3, 1))]
    zero = [tuple(0 if k >> i & 1 else 4 for i in range(8)) for k in range(256)]
    runs = [z for z in zero if many or ''.join(map(str, z)).strip('4').count('4') == 0 and z.count(0) in (0, 2, 7, 8)]
    return runs + [(w,) * 8 for w in (1, 2, 3)] + [(1, 2, 3, 4, 0, 3, 2, 1), (4, 0, 0, 3, 0, 0, 0, 1)] + ([tuple(min(w, 1) for w in z) for z in zero] if many else [])


FAM = [('4', 0, 32), ('6', 0, 128), ('6', 4, 128), ('a', 256, 32), ('a', 0, 128), ('a', 5, 128)]


def cells(tier, only=None):
    deep = tier == 'thorough'
    configs = ['cpp20', 'cpp11', 'noexc20', 'assert20', 'bez20'] + (['cpp14', 'cpp17', 'cpp23', 'noexc11', 'noexc17', 'utf8char', 'nospace', 'be11', 'scope0', 'scope1'] if deep else [])
    for cfg in only or configs:
        main = cfg == 'cpp20' or deep

        def C(make, *params, **o):
            o.setdefault('merge', 2)
            return Cell('ops', cfg, make.__name__, params, group=make.__name__, **o)
        pre20 = cfg in ('cpp11', 'cpp14', 'cpp17', 'noexc11', 'noexc17', 'be11', 'scope0_11')
        for x, z, top in FAM if main else [f for f in FAM if f[:2] != ('a', 5)]:
            v4 = x == '4' or bool(z & 256)
            zs = [z] if x == '4' or z & 256 else sorted({z, 16 if z else 0})
            for zz in zs:
                for w in (0, 1, 2, 3):
                    yield C(one, x, zz, w, 0)
                for w in range(4, 10 if pre20 else 11):
                    for f in (0, 1, 2) if w in (4, 5, 6, 7, 10) else (0,):
                        for sh in shapes(v4, main and zz == z and w == 4 and f == 2) if main else shapes(v4, False)[::4]:
                            yield C(one, x, zz, w, f, sh)
            for y in {z, 0} | ({16, 256} if main else {256}) if x == 'a' else {z, 0, 3} if x == '6' else {0}:
                for w in range(4 if pre20 else 5):
                    yield C(two, x, z, y, w)
                    if y != z:
                        yield C(two, x, y, z, w)
            ps = list(range(top + 1)) if main and z != 5 or deep else [0, 9, top // 2, top]
            for p in ps + ([top + 1, 255, 256] + HUGE if main else [top + 1, HUGE[-1]]):
                for w in range(7 if pre20 else 8):
                    if w == 1 and not deep and p <= top and p not in (0, 3, 8, 10, 16, 32, 64, 96, 127):
                        continue
                    if w not in (3, 4, 5, 7):
                        yield C(net1, x, z, p, w, 0)
                    elif p in (0, 9, top) or deep:
                        for f in (0, 1, 2) if p == 9 and w == 3 else (0,):
                            for sh in shapes(v4, False):
                                yield C(net1, x, z, top if p == 9 else p, w, f, sh)
            few = [0, 1, 8, 9, top - 1, top] if main else [9, top]
            hp = ps if deep else sorted({0, top // 2, top - 9, top - 1, top}) if main else [top - 9]
            summ = dict(summ=[('::ip_to_chars', 15 if v4 else 56)])
            for p in few:
                for q in few:
                    for w in range(4 if pre20 else 5):
                        yield C(net2, x, z, z, p, q, w, **summ)
            if x == 'a':
                for w in range(4 if pre20 else 5):
                    yield C(net2, x, z, 256 ^ (z & 256), 9, 17, w, **summ)
            for p in few:
                for d in ([0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129] if main else [0, 1, 2, top + 1]) + HUGE:
                    for w in (0, 1):
                        yield C(regroup, x, z, p, d, 0, 0, w, **summ)
                for q in ([0, 1, 8, 9, 10, top - 1, top, top + 1] if main else [0, 9, top, top + 1]) + HUGE:
                    for w in (0, 1):
                        yield C(regroup, x, z, p, 1, q, 1, w, **summ)
                        yield C(regroup, x, z, p, 0, q, 1, w, **summ)
            for p in hp:
                for w in range(8) if main else (0, 3, 7):
                    yield C(hosts, x, z, p, None, w, **summ)
            for p in few:
                for d in (0, 1, 2, 7, 31, 32, 63, 64, 127, 128) if main else (1, top):
                    if p + d <= top:
                        for w in range(8):
                            for n in (1, -1, 2, 3, 1 << 32, (1 << 63) - 1) if w in (1, 2, 3, 4, 5) else (0,):
                                if abs(n) <= 1 << d and (deep or d in (1, 7, 64) or n in (0, 1)) and (w != 3 or abs(n) < 2):
                                    yield C(subnets, x, z, p, d, n, w, **summ)
            for p in few if not deep else ps:
                for q in {0, p - 1, p, p + 1, p + 2, p + 9, top} if main and not deep else {p - 1, p + 1} if not deep else ps:
                    if 0 <= q <= top and abs(p - q) < (20 if not deep else 129):
                        for t in (0, 1, 2) if abs(p - q) > 1 else (0, 1):
                            yield C(exclude, x, z, p, q, t, **summ)
        for w in (0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 17):
            yield C(blank, w)
        for sh in range(128) if main else (0, 1, 63, 64, 65, 127):
            for w in (2, 9):
                yield C(u128, sh, w)
        for w in (0, 1, 3, 4, 8, 12):
            yield C(u128, 0, w)
