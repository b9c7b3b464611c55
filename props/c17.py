from bitflow import engine as E
from bitflow.driver import Cell
from props.c16 import W, bits_to_bytes, bit
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over a partition of the input space'
NOTE = ('Every pair of prefix lengths (quick: a spread of them for IPv6). The bits above the shorter prefix are unknown; the bits between the two prefixes, which choose '
        'the halves that are walked, are enumerated when there are few of them and otherwise run over zeros, ones, alternations and pseudo-random patterns. '
        'Rejection: every first differing bit, all other bits unknown.')
RULE = ('Exclusion: the yielded networks are exactly the sibling of each prefix p+1..q of the excluded network, each once (pairwise disjoint, disjoint from the excluded network, '
        'and together with it covering the original by the binary tree of prefixes); rejected pairs give the documented code and an empty sequence.')


def rnd(seed, n):
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    o = []
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        o.append(x >> 16 & 1)
    return o


def patterns(p, q, few):
    k = q - p
    if k <= (2 if few else 4):
        return [tuple(i >> j & 1 for j in range(k)) for i in range(1 << k)]
    l = [tuple([0] * k), tuple([1] * k), tuple([i & 1 for i in range(k)]), tuple(rnd(p * 131 + q, k))]
    if not few:
        l += [tuple([1 - (i & 1) for i in range(k)]), tuple([0] * (k - 1) + [1]), tuple([1] + [0] * (k - 1)), tuple([1] * (k - 1) + [0])] + [tuple(rnd(s * 977 + p * 131 + q, k)) for s in range(4)]
    return l


def address(ctx, v, p, mid, name='a'):
    n, w = W(v)
    b = [bit(ctx, name, i) for i in range(p)] + [E.const(1, x) for x in mid]
    return bits_to_bytes(b + [E.const(1, 0)] * (w - len(b)))


def exclude(ctx, v, p, q, mid, how):
    return 'c17_exclude%d' % v, [ctx.buf(address(ctx, v, p, [int(x) for x in mid])), ctx.const(64, p), ctx.const(64, q), ctx.opaque(32, 'stale'), ctx.const(32, how)]


def scoped(ctx, p, q, mid):
    return 'c17_scoped', [ctx.buf(address(ctx, 6, p, [int(x) for x in mid])), ctx.const(64, p), ctx.const(64, q)]


def differing(ctx, v, bit_, abit, p, q):
    n, w = W(v)
    a, b = ctx.shared('a', 'b', n, bit_, abit)

    def cut(x, m):
        o = []
        for i in range(n):
            k = max(0, min(8, m - 8 * i))
            o.append(x[i] if k == 8 else E.const(8, 0) if k == 0 else E.concat([E.const(8 - k, 0), E.slice_(x[i], 8 - k, k)]))
        return o
    return cut(a, p), cut(b, q)


def reject(ctx, v, bit_, abit, p, q, throwing):
    a, b = differing(ctx, v, bit_, abit, p, q)
    args = [ctx.buf(a, 'x'), ctx.const(64, p), ctx.buf(b, 'y'), ctx.const(64, q)]
    return ('c17_rejectx%d' % v, args) if throwing else ('c17_reject%d' % v, args + [ctx.opaque(32, 'stale')])


def cells(tier):
    quick = tier == 'quick'
    for c in ['cpp20', 'cpp11'] if quick else ['cpp20', 'cpp11', 'cpp17', 'nospace', 'noexc20', 'scope0', 'be20']:
        main = c == 'cpp20'
        for v in (4, 6):
            n, w = W(v)
            if not quick:
                ps = range(w + 1)
            elif v == 4:
                ps = range(w + 1) if main else [0, 7, 8, 16, 30, 31, 32]
            else:
                ps = [0, 1, 31, 32, 47, 63, 64, 65, 96, 120, 126, 127, 128] if main else [0, 63, 64, 127, 128]
            for p in ps:
                qs = range(p, w + 1) if v == 4 and (main or not quick) else sorted({x for x in (p, p + 1, p + 2, p + 3, p + 9, 32, 63, 64, 65, 66, 126, 127, 128) if p <= x <= w})
                if not quick and main:
                    qs = range(p, w + 1)
                for q in qs:
                    if quick and q - p > 16 and v == 6 and ((p, q) not in ((0, 64), (32, 64), (64, 128), (65, 127), (0, 128), (1, 126)) or not main):
                        continue
                    for i, mid in enumerate(patterns(p, q, quick or q - p > 40)):
                        if quick and (q - p > 16 and i < 2 + (q - p > 64) or not main and i > 3):
                            continue
                        yield Cell('iter', c, 'exclude', (v, p, q, ''.join(map(str, mid)), 1 if (p + q + i) % 5 == 0 and 'noexc' not in c else 0), summ=[('::ip_to_chars', 15 if v == 4 else 56)], budget=20000000)
                for q in qs:
                    for b in sorted({x for x in (0, 1, p - 1, p - 2, p // 2, 7, 8, 63, 64) if 0 <= x < p} if quick else range(p)):
                        for t in (0, 1):
                            yield Cell('iter', c, 'reject', (v, b, t, p, q, 0))
                    for b in sorted({x for x in (0, p - 1) if 0 <= x < p}):
                        if 'noexc' not in c and (q - p in (0, 1) or q == w):
                            yield Cell('iter', c, 'reject', (v, b, q & 1, p, q, 1), summ=[('::ip_to_chars', 15 if v == 4 else 56)])
                for q in range(0, p) if not quick else sorted({x for x in (0, p - 1, p // 2) if 0 <= x < p}):
                    for b in sorted({None, q - 1 if q else None, q if q < w else None}, key=str):
                        yield Cell('iter', c, 'reject', (v, b, 0, p, q, 0))
                    if 'noexc' not in c:
                        yield Cell('iter', c, 'reject', (v, None, 0, p, q, 1), summ=[('::ip_to_chars', 15 if v == 4 else 56)])
        if c != 'scope0':
            for p, q in ((0, 1), (64, 64), (64, 65), (64, 67), (127, 128)) if quick else ((0, 1), (10, 64), (64, 64), (64, 65), (64, 67), (120, 128), (127, 128), (0, 128)):
                yield Cell('iter', c, 'scoped', (p, q, ''.join(map(str, rnd(p + q, q - p)))))
