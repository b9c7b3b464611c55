from bitflow import engine as E
from bitflow.driver import Cell
from props import c06, c07, c08, c09, c10, c12, c15, c16, c17, c18, c19, registry as R, text as T
from props.c16 import W, net, zs
LEVEL = 'other'
TECHNIQUE = 'relational abstract interpretation of LLVM IR: the version-independent call and the call on the held object in one analysed path'
NOTE = ('Both calls see the same unknown bits, so equality of results is decided on the abstract values. Construction, conversions, swap, classification, embedded addresses, hash: all values '
        'per partition class. Comparison, containment, network operations, sequences, exclusion, text and parsing: the partitions of the respective properties, thinned in the quick tier.')
RULE = 'Version-independent operation and held-object operation: same result, same code, same exception code; mixed versions: the documented neutral answer or invalid_version.'
S4 = [('::ip_to_chars', 15)]
S6 = [('::ip_to_chars', 56)]
SC = sorted(set(range(33, 127)) - {37, 47})


def summ(v):
    return S4 if v == 4 else S6


def w32(ctx, *xs):
    return [ctx.const(32, x) for x in xs]


def one(ctx, e, v, sc=0):
    s = ctx.var('sc', SC) if sc else None
    return 'any_%s%d' % (e, v), [ctx.buf(ctx.bytes('a', W(v)[0])), E.concat([s, E.const(24, 0)]) if sc else ctx.const(32, 0)]


def leaf(ctx, e, v, s, sc=0):
    return 'any_%s%d' % (e, v), [ctx.buf(c19.fill(ctx, s, W(v)[0]))] + ([] if e == 'embed' and v == 4 else w32(ctx, sc))


def leafn(ctx, v, s, p):
    return 'any_clsn%d' % v, [ctx.buf(c19.fill(ctx, s, W(v)[0], p)), ctx.const(64, p)]


def two(ctx, v, std, sa, sb):
    n = W(v)[0]
    return 'any_swap%d' % v, [ctx.buf(ctx.bytes('a', n)), ctx.buf(ctx.bytes('b', n))] + w32(ctx, sa, sb, std)


def cross(ctx, std, sb):
    return 'any_swapx', [ctx.buf(ctx.bytes('a', 4)), ctx.buf(ctx.bytes('b', 16))] + w32(ctx, sb, std)


def ncross(ctx, p, q, std):
    return 'any_nswapx', [ctx.buf(net(ctx, 4, p)), ctx.const(64, p), ctx.buf(c12.masked(ctx, ctx.bytes('b', 16), q)), ctx.const(64, q)] + w32(ctx, std)


def ntwo(ctx, v, p, q, std):
    n = W(v)[0]
    return 'any_nswap%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.buf(c12.masked(ctx, ctx.bytes('b', n), q)), ctx.const(64, q)] + w32(ctx, std)


def cmp_(ctx, v, b, ab, op):
    x, y = ctx.shared('a', 'b', W(v)[0], b, ab)
    return 'any_cmp%d' % v, [ctx.buf(x), ctx.buf(y)] + w32(ctx, 0, 0, op)


def cmps(ctx, sa, sb, op):
    a = ctx.bytes('a', 16)
    return 'any_cmp6', [ctx.buf(a), ctx.buf(a)] + w32(ctx, sa, sb, op)


def cmpn(ctx, v, p, q, b, ab, op):
    e, args = c12.net(ctx, v, 'any_cmpn%d' % v, p, q, b, ab, op)
    return e, args


def mixed(ctx, p, q, x):
    a = [ctx.buf(net(ctx, 4, p)), ctx.const(64, p), ctx.buf(c12.masked(ctx, ctx.bytes('b', 16), q)), ctx.const(64, q)]
    return ('any_mixed', a + [ctx.opaque(32, 'stale')]) if x is None else ('any_mixedx', a + w32(ctx, x))


def text4(ctx, cls, fmt, how):
    return 'any_str4', [ctx.buf(c10.v4bytes(ctx, cls))] + w32(ctx, 0, fmt, how)


def text6(ctx, cls, sc, fmt, how):
    return 'any_str6', [ctx.buf(c10.v6bytes(ctx, cls))] + w32(ctx, sc, fmt, how)


def textn(ctx, v, p, cls, fmt, how):
    e, args = (c10.n4 if v == 4 else c10.n6)(ctx, p, cls, fmt, how, 0)
    return 'any_strn%d' % v, args[:-1]


def scope(ctx, v, ct, specs, thrown):
    t = T.text(ctx, specs, ct) if specs else ctx.raw(b'\0' * 4)
    return 'any_scope_' + ct, [ctx.buf(ctx.bytes('a', W(v)[0])), ctx.const(32, v), t, ctx.const(64, len(specs)), ctx.opaque(32, 'stale')] + w32(ctx, thrown)


def nbasic(ctx, v, p, sc):
    return 'any_nbasic%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p)] + w32(ctx, sc)


def hashn(ctx, v, p):
    return 'any_hashn%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p)]


def nfrom(ctx, v, p, strict, host):
    """host: None no host bit, else the position of a host bit that is set"""
    n, w = W(v)
    a = net(ctx, v, min(p, w)) if host is None else ctx.bytes('a', n)
    if host is not None and strict:
        k = host // 8
        bit = 7 - host % 8
        parts = ([E.slice_(a[k], 0, bit)] if bit else []) + [E.const(1, 1)] + ([E.slice_(a[k], bit + 1, 7 - bit)] if bit < 7 else [])
        a[k] = E.concat(parts)
    return 'any_nfrom%d' % v, [ctx.buf(a), ctx.const(64, p), ctx.const(32, strict), ctx.opaque(32, 'stale')]


def nrel(ctx, v, p, q, b, ab, w):
    e, args = c15.rel(ctx, 'contains' if w == 0 else 'relate', v, p, q, b, ab, 0)
    return 'any_nrel%d' % v, args[:3] + [ctx.const(64, q)] + w32(ctx, w)


def nsuper(ctx, v, p, d, q, has, thrown):
    return 'any_nsuper%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has), ctx.const(32, thrown), ctx.opaque(32, 'stale')]


def hosts(ctx, v, p, s, k, part):
    return 'any_hosts%d' % v, [ctx.buf(c18.shaped(ctx, v, p, s)), ctx.const(64, p)] + w32(ctx, k, part)


def subs(ctx, v, p, d, q, has, thrown, s, k, part):
    return 'any_subs%d' % v, [ctx.buf(c18.shaped(ctx, v, p, s)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has), ctx.const(32, thrown), ctx.opaque(32, 'stale')] + w32(ctx, k, part)


def excl(ctx, v, p, q, mid, thrown):
    a = c17.address(ctx, v, p, [int(x) for x in mid])
    b = c17.address(ctx, v, p, [])
    return 'any_excl%d' % v, [ctx.buf(b), ctx.const(64, p), ctx.buf(a), ctx.const(64, q), ctx.const(32, thrown), ctx.opaque(32, 'stale')]


def exclbad(ctx, v, b, ab, p, q, thrown):
    x, y = c17.differing(ctx, v, b, ab, p, q)
    return 'any_excl%d' % v, [ctx.buf(x), ctx.const(64, p), ctx.buf(y), ctx.const(64, q), ctx.const(32, thrown), ctx.opaque(32, 'stale')]


def pick(ctx, kind, ct, specs, strict, thrown):
    a = [T.text(ctx, specs, ct), ctx.const(64, len(specs))]
    if kind == 'n':
        a.append(ctx.const(32, strict))
    return 'any_pick%s_%s' % ('n' if kind == 'n' else '', ct), a + [ctx.opaque(32, 'stale')] + w32(ctx, thrown)


KEEP = dict(leafn=4, nrel=5, subs=4, nsuper=4, exclbad=4, cmpn=3, excl=2, hosts=2, textn=2)


def cells(tier):
    """quick: a fixed pseudo-random share of the large families"""
    n = {}
    for x in every(tier):
        if tier == 'quick':
            i = n[x.config, x.make] = n.get((x.config, x.make), 0) + 1
            k = KEEP.get(x.make, 1) * (1 if x.config == 'cpp20' else 3)
            if ((i * 2654435761 & 0xFFFFFFFF) >> 12) % k and i > 8:
                continue
        yield x


def every(tier):
    quick = tier == 'quick'
    for c in ['cpp20', 'cpp11', 'noexc20'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'nospace', 'scope0', 'noover', 'be20']:
        main = c == 'cpp20'
        full = main or not quick
        exc = 'noexc' not in c
        scoped = 'scope0' not in c
        o = {'ctors': 1} if '11' in c else {}
        yield Cell('any', c, 'one', ('basic', 4))
        yield Cell('any', c, 'one', ('basic', 6))
        if scoped:
            yield Cell('any', c, 'one', ('basic', 6, 1))
            yield Cell('any', c, 'one', ('basic', 4, 1))
            yield Cell('any', c, 'one', ('hash', 6, 1))
        yield Cell('any', c, 'one', ('hash', 4))
        yield Cell('any', c, 'one', ('hash', 6))
        for v in (4, 6):
            inner, leaves = R.nodes(v)
            for s in sorted(leaves):
                yield Cell('any', c, 'leaf', ('cls', v, s), **o)
                if v == 6 and scoped:
                    yield Cell('any', c, 'leaf', ('cls', v, s, ord('7')), **o)
                yield Cell('any', c, 'leaf', ('embed', v, s))
                n, w = W(v)
                for p in sorted({len(s), min(w, len(s) + 1), w} if full else {w}):
                    yield Cell('any', c, 'leafn', (v, s, p), **o)
            for s in sorted(inner) if full else []:
                yield Cell('any', c, 'leafn', (v, s, len(s)), **o)
        for std in (0, 1) if c != 'noover' else (0,):
            for sa, sb in ((0, 0), (55, 0), (0, 120)) if scoped else ((0, 0),):
                yield Cell('any', c, 'two', (6, std, sa, sb))
            yield Cell('any', c, 'two', (4, std, 0, 0))
            for sb in (0, 97) if scoped else (0,):
                yield Cell('any', c, 'cross', (std, sb))
            for p, q in ((0, 0), (8, 64), (32, 128), (31, 127)):
                yield Cell('any', c, 'ncross', (p, q, std))
                yield Cell('any', c, 'ntwo', (4, p, 24, std))
                yield Cell('any', c, 'ntwo', (6, q, 65, std))
        for p in (0, 1, 8, 24, 31, 32):
            for q in (0, 1, 32, 64, 127, 128):
                for x in (None, 0, 1) if exc else (None,):
                    yield Cell('any', c, 'mixed', (p, q, x), summ=S6)
        for op in range(6):
            for v, bits in ((4, 32), (6, 128)):
                for b in [None] + [b for b in range(bits) if full and (v == 4 or not quick) or b % 8 in (0, 7) or b % 13 == op]:
                    for ab in ((0, 1) if b is not None else (0,)):
                        yield Cell('any', c, 'cmp_', (v, b, ab, op))
                for p in ((0, 1, 8, 31, 32) if v == 4 else (0, 1, 64, 127, 128)):
                    for q in {0, p - 1, p, p + 1, bits}:
                        if not 0 <= q <= bits:
                            continue
                        yield Cell('any', c, 'cmpn', (v, p, q, None, 0, op))
                        for b in sorted({x for x in (0, min(p, q) - 1, max(p, q) - 1) if 0 <= x < max(p, q)}):
                            for ab in (0, 1):
                                if b >= p and ab == 1 or b >= q and ab == 0:
                                    continue
                                yield Cell('any', c, 'cmpn', (v, p, q, b, ab, op))
            for sa, sb in ((0, 55), (55, 0), (55, 55), (97, 98), (98, 97)) if scoped else ():
                yield Cell('any', c, 'cmps', (sa, sb, op))
        # text
        hows = [h for h in range(18) if not (h in (4, 5, 6) and c in ('cpp11', 'cpp14', 'cpp17', 'noexc11')) and not (c == 'noover' and h in (15, 16))]
        i = 0
        for cls in [(x, y, z, t) for x in range(3) for y in range(3) for z in range(3) for t in range(3)]:
            i += 1
            for h in hows if not quick or i % 27 == 0 else [hows[i % len(hows)], hows[(i * 7 + 3) % len(hows)]]:
                for fmt in ((0, 1, 2) if h < 5 else (2,)):
                    yield Cell('any', c, 'text4', (cls, fmt, h))
            yield Cell('any', c, 'textn', (4, (i * 5) % 33, cls, 2, hows[i % (len(hows) - 1)]))
        for m in range(0, 256, 5 if quick else 1):
            cls = tuple([1 + (i * 3 + m) % 4, 0][m >> i & 1] for i in range(8))
            for k, h in enumerate(hows if not quick or main and m % 50 == 0 else [hows[m % len(hows)], hows[(m // 5 * 7) % len(hows)]]):
                fmt = (m + k) % 3 if h < 5 else 2
                sc = 97 + m % 26 if scoped and (m + k) % 3 == 0 else 0
                if h == 17:
                    sc = 0
                yield Cell('any', c, 'text6', (cls, sc, fmt, h))
                if h < 17:
                    yield Cell('any', c, 'textn', (6, m // 2, cls, fmt, h))
        # scopes
        cts = ['c', 'w', 'c16', 'c32'] + (['c8'] if '11' not in c and c not in ('cpp14', 'cpp17') else [])
        if scoped:
            sc = frozenset(SC) - {0}
            forms = [(), (sc,), (sc, sc), (sc,) * 15, (sc,) * 16, (sc,) * 17, (sc,) * 40, (37,), (sc, 37), (47, sc), (sc, 0, sc), (frozenset({48}),) * 3] + [(frozenset(range(48, 58)),) * k for k in (1, 2, 3)]
            for i, f in enumerate(forms):
                for j, ct in enumerate(cts):
                    if quick and not main and (i + j) % 3:
                        continue
                    for th in (0, 1) if exc else (0,):
                        yield Cell('any', c, 'scope', (6, ct, f, th), summ=S6)
                        yield Cell('any', c, 'scope', (4, ct, f, th), summ=S6)
        # networks
        for v in (4, 6):
            n, w = W(v)
            ps = range(w + 1) if full and (v == 4 or not quick) else sorted({0, 1, 7, 8, 9, w // 2 - 1, w // 2, w // 2 + 1, w - 2, w - 1, w} | set(range(3, w, 16)))
            for p in ps:
                yield Cell('any', c, 'nbasic', (v, p, 0))
                if v == 6 and scoped and p % 8 in (0, 1):
                    yield Cell('any', c, 'nbasic', (6, p, 101))
                yield Cell('any', c, 'hashn', (v, p))
                for strict in (0, 1):
                    yield Cell('any', c, 'nfrom', (v, p, strict, None), summ=summ(v))
                    for hb in sorted({p, w - 1, (p + w) // 2} & set(range(p, w))):
                        yield Cell('any', c, 'nfrom', (v, p, strict, hb), summ=summ(v))
                for q in sorted({0, p - 1, p, p + 1, w, (p * 7) % (w + 1)} & set(range(w + 1))):
                    for wh in range(4):
                        m = p if wh == 0 else min(p, q)
                        for b in [None] + sorted({x for x in (0, m - 1, m // 2) if 0 <= x < m}):
                            for ab in ((0, 1) if b is not None else (0,)):
                                if quick and not main and (p + q + wh) % 3:
                                    continue
                                yield Cell('any', c, 'nrel', (v, p, q, b, ab, wh))
                for d in sorted({0, 1, 2, p - 1, p, p + 1, w - p, w - p + 1, w, w + 1, (1 << 64) - 1, 1 << 32} - {-1}):
                    for th in (0, 1) if exc else (0,):
                        if quick and not main and (p + d) % 3:
                            continue
                        yield Cell('any', c, 'nsuper', (v, p, d, 0, 0, th), summ=summ(v))
                        yield Cell('any', c, 'nsuper', (v, p, 1, d, 1, th), summ=summ(v))
                        if d > w or d < 3:
                            yield Cell('any', c, 'nsuper', (v, p, d, p // 2, 1, th), summ=summ(v))
                        if p == w or d > w - p:
                            yield Cell('any', c, 'subs', (v, p, d, 0, 0, th, ('u01', p // 2 if p else 0), 2, 0), summ=summ(v))
                        if p == w or d < p or d > w:
                            yield Cell('any', c, 'subs', (v, p, 1, d, 1, th, ('u01', p // 2 if p else 0), 2, 0), summ=summ(v))
                for part in range(4):
                    for s in ([('u01', 1 if p else 0)] + ([('u10', 1)] if p else [])):
                        if quick and not main and (p + part) % 3:
                            continue
                        yield Cell('any', c, 'hosts', (v, p, s, 4, part))
                        for d in (0, 1, 2, 3):
                            if p + d <= w:
                                yield Cell('any', c, 'subs', (v, p, d, 0, 0, d & 1 if exc else 0, s, 4, part), summ=summ(v))
                                if d == 2:
                                    yield Cell('any', c, 'subs', (v, p, 1, p + d, 1, part & 1 if exc else 0, s, 4, part), summ=summ(v))
                for q in sorted({p, p + 1, p + 2, p + 5, w} & set(range(p, w + 1))):
                    if q - p > (9 if quick else 33):
                        continue
                    for mid in c17.patterns(p, q, True)[:3]:
                        for th in (0, 1) if exc else (0,):
                            yield Cell('any', c, 'excl', (v, p, q, ''.join(map(str, mid)), th), summ=summ(v), budget=20000000)
                    for b in sorted({x for x in (0, p - 1) if 0 <= x < p}):
                        for th in (0, 1) if exc else (0,):
                            yield Cell('any', c, 'exclbad', (v, b, th, p, q, th), summ=summ(v))
                    if q > p:
                        yield Cell('any', c, 'exclbad', (v, None, 0, q, p, 0), summ=summ(v))
        # parsing: texts of both families, one unknown digit at a time where several would multiply
        ws = c09.words(quick)
        for kind, lists in (('a', ('a4', 'a6', 'aa')), ('n', ('n4', 'n6', 'na'))):
            l = list(dict.fromkeys(thin(w, i) for k in lists for i, w in enumerate(ws[k])))
            for i, w in enumerate(l):
                if not scoped and 37 in w or not full and i % 4:
                    continue
                for ct in [cts[i % len(cts)]] if quick else cts:
                    for st in ((0, 1) if kind == 'n' else (0,)):
                        if quick and st != i // 2 % 2 and kind == 'n':
                            continue
                        for th in (0, 1) if exc and (i % 3 == 0 or not quick) else (0,):
                            yield Cell('any', c, 'pick', (kind, ct, w, st, th), summ=c07.SUMM)
        for i, (s, code, ends, pos) in enumerate(T.v4_texts(T.FULL if not quick else [T.FULL[1], T.FULL[4]])):
            if code == 0:
                for th in (0, 2) if exc else (0,):
                    yield Cell('parse', c, 'aa4', (cts[i % len(cts)], th, tuple(s), tuple(pos)), summ=c07.SUMM)


ONE = {'N': 55, 'D': 52, 'L': 51, 'M': 50, 'H': 57, 'T': 56, 'x': 99, 'X': 69}


def thin(w, k):
    """keep the k-th unknown digit (cyclically), fix the others"""
    at = [i for i, x in enumerate(w) if isinstance(x, str) and x in ONE or isinstance(x, frozenset) and len(x) < 30]
    if not at or 46 not in w and 47 not in w:
        return w
    keep = at[k % len(at)]
    return tuple(x if i == keep or i not in at else ONE[x] if isinstance(x, str) else max(x) for i, x in enumerate(w))


def aa4(ctx, ct, how, specs, pos):
    g = ctx.raw(bytes(64))
    return 'aa_' + ct, [T.text(ctx, specs, ct), ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, 4), ctx.const(32, 0), ctx.raw(bytes(pos), 'pos'), g, ctx.opaque(32, 'stale')]
